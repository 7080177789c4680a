FLAGS = ["-std=c++17", "-O0", "-frounding-math", "-w"]
PROPS = {
 "C01": dict(harness=[dict(src="h_arith.cpp")],
    mc=[("XRealTest.tla", "XRealTest.cfg"), ("SpecMC.tla", "SpecMCs.cfg")], mc_thorough=[("SpecMC.tla", "SpecMC.cfg")]),
 "C02": dict(harness=[dict(src="h_arith.cpp")],
    mc=[("XRealTest.tla", "XRealTest.cfg"), ("SpecMC.tla", "SpecMCs.cfg")], mc_thorough=[("SpecMC.tla", "SpecMC.cfg")]),
 "C03": dict(harness=[dict(src="h_arith.cpp")],
    mc=[("XRealTest.tla", "XRealTest.cfg"), ("SpecMC.tla", "SpecMCs.cfg")], mc_thorough=[("SpecMC.tla", "SpecMC.cfg")]),
 "C04": dict(harness=[dict(src="h_alg.cpp")]),
 "C05": dict(harness=[dict(src="h_alg.cpp")]),
 "C21": dict(harness=[dict(src="h_alg.cpp")]),
 "C06": dict(harness=[dict(src="h_util.cpp")], mc=[("SpecMC.tla", "SpecMCs.cfg")]),
 "C07": dict(harness=[dict(src="h_util.cpp")], mc=[("SpecMC.tla", "SpecMCs.cfg")]),
 "C08": dict(harness=[dict(src="h_util.cpp")]),
 "C09": dict(harness=[dict(src="h_cmp.cpp")], mc=[("SpecMC.tla", "SpecMCs.cfg")]),
 "C10": dict(harness=[dict(src="h_cmp.cpp")], mc=[("SpecMC.tla", "SpecMCs.cfg")]),
 "C11": dict(harness=[dict(src="h_cmp.cpp")]),
 "C12": dict(harness=[dict(src="h_conv.cpp")]),
 "C13": dict(harness=[dict(src="h_bad.cpp")]),
 "C18": dict(harness=[dict(src="h_trans.cpp")], mc=[("XRealTest.tla", "XRealTest.cfg")]),
 "C19": dict(harness=[dict(src="h_trans.cpp")], mc=[("XRealTest.tla", "XRealTest.cfg")]),
 "C14": dict(harness=[dict(src="h_mode.cpp"), dict(src="h_mode.cpp", flags=["-DSESSIONS"], module="RoundingTrace", bin="sess")],
    mc=[("RoundingMachine.tla", "RoundingMachine.cfg")],
    gen=[dict(module="RoundingGen.tla", cfg="RoundingGen3.cfg", tier="quick"), dict(module="RoundingGen.tla", cfg="RoundingGen4.cfg", tier="thorough"),
         dict(module="RoundingGen.tla", cfg="RoundingGenSim.cfg", sim=(1500, 20), tier="quick"), dict(module="RoundingGen.tla", cfg="RoundingGenSim.cfg", sim=(15000, 20), tier="thorough")]),
 "C17": dict(harness=[dict(src="h_mode.cpp")]),
 "C24": dict(harness=[dict(src="h_prim.cpp"), dict(src="h_prim.cpp", flags=["-mfpmath=387", "-DX87"]), dict(src="h_prim.cpp", flags=["-mfpmath=387", "-DX87", "-DX87FAST"])]),
 "C20": dict(harness=[dict(src="h_const.cpp")], mc=[("XRealTest.tla", "XRealTest.cfg")]),
 "C25": dict(harness=[dict(src="h_const.cpp", without=[("-DNO_SNAN", "limits.signaling_NaN|||||X,nocompile")])]),
 "C22": dict(harness=[dict(src="h_sess.cpp", module="IntervalTrace")],
    mc=[("IntervalMC.tla", "IntervalMC.cfg")], mc_thorough=[("IntervalMC.tla", "IntervalMC2.cfg")],
    gen=[dict(module="IntervalGen.tla", cfg="IntervalGen.cfg", sim=(1600, 30), tier="quick"), dict(module="IntervalGen.tla", cfg="IntervalGenLong.cfg", sim=(3000, 50), tier="thorough")]),
 "C23": dict(harness=[dict(src="h_iso.cpp")], mc=[("SpecMC.tla", "SpecMCs.cfg")]),
 "C15": dict(harness=[dict(src="h_same.cpp")]),
 "C16": dict(harness=[dict(src="h_same.cpp")]),
}
NOTES = {"*": "Exhaustive over every operand of a 2-bit soft floating-point format (infinities, subnormals and overflow included) under every rounding policy variant, sampled (edge-biased, seeded) on float, double and long double; each recorded call of the real templates is decided by TLC against exact arithmetic in the specification. Trusts TLC, the exact-arithmetic override class (cross-checked against a plain TLA+ definition) and g++ -O0."}
