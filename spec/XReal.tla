------------------------------- MODULE XReal -------------------------------
(* Exact extended real numbers, and rounding to floating-point formats.      *)
(*                                                                           *)
(* A value is a canonical string: "0", "+oo", "-oo", "nan", or "NpE" /       *)
(* "N/DpE" meaning (N/D)*2^E with N, D odd, coprime, in hexadecimal, D > 0,  *)
(* E decimal.  Equality of values is therefore equality of strings.          *)
(*                                                                           *)
(* A format is a string: "f32", "f64", "f80" (IEEE single, double, x87       *)
(* extended), "m:p:qmin:qmax" (p-bit significands, quantum exponents         *)
(* qmin..qmax), "q" (all rationals: rounding is the identity) or "z"         *)
(* (unbounded integers).                                                     *)
(*                                                                           *)
(* TLC replaces the operators below by the Java class of the same name       *)
(* (java/XReal.java).  XRealTest.tla checks that class against definitions   *)
(* of the same operators in plain TLA+ on small numbers.                     *)
LOCAL Stub == CHOOSE v \in {} : TRUE

XInt(n)    == Stub            \* the integer n
XRat(n, d) == Stub            \* n / d
XNeg(a)    == Stub
XAbs(a)    == Stub
XAdd(a, b) == Stub            \* oo + -oo = nan
XSub(a, b) == Stub
XMul(a, b) == Stub            \* 0 * oo = 0 (bounds of sets of reals)
XDiv(a, b) == Stub            \* a/0 = nan, oo/oo = nan, a/oo = 0
XPow(a, k) == Stub            \* k a natural number
XShl(a, k) == Stub            \* a * 2^k
XFloor(a)  == Stub
XCeil(a)   == Stub
XSgn(a)    == Stub            \* -1, 0, 1
XCmp(a, b) == Stub            \* sign of a - b, over the extended reals
XLe(a, b)  == Stub
XLt(a, b)  == Stub
XMin(a, b) == Stub
XMax(a, b) == Stub
XIsNum(a)  == Stub            \* a # "nan"
XIsFin(a)  == Stub
XOdd(a)    == Stub            \* a is an odd integer

XRound(f, d, a) == Stub       \* a rounded to f: d = "D" down, "U" up, "N" nearest even, "Z" to zero
XRep(f, a)      == Stub       \* a is representable in f
XMaxFin(f)      == Stub       \* largest finite number of f
XNextUp(f, a)   == Stub       \* least value of f above a
XNextDn(f, a)   == Stub
XBits(a)        == Stub       \* length of the numerator, the denominator and the exponent
XSteps(f, a, b) == Stub       \* number of steps of f from a to b (saturated)

XRootRound(f, d, a, k) == Stub   \* the k-th root of a >= 0, rounded to f
XFnDef(fn, a)          == Stub   \* fn has a real value at a
XFnCmp(fn, a, v)       == Stub   \* sign of fn(a) - v, exact (limits at the ends of the domain)
XFnRound(fn, f, d, a)  == Stub   \* fn(a) rounded to f
XPiFloor(a, q)         == Stub   \* floor(a / (q*pi)), q a positive rational
XPiRound(f, d, q)      == Stub   \* q*pi rounded to f
=============================================================================
