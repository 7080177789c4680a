---------------------------- MODULE IntervalGen ----------------------------
(* Random behaviours of IntervalMachine, as programs for the real code.  The  *)
(* machine runs over a small format with tight outcomes, only to prefer       *)
(* variables that still say something.                                        *)
EXTENDS IntervalMachine, Records, TLC, FiniteSets
CONSTANTS F, Depth
VARIABLE hist
Ops1 == {"neg.i", "pos.i", "abs.i", "square.i", "inv.i", "sqrt.i", "put.i", "put.c", "bisect.1", "bisect.2", "pow.iz", "pow.iz", "root.ik",
         "exp.i", "log.i", "sin.i", "cos.i", "tan.i", "asin.i", "acos.i", "atan.i", "sinh.i", "cosh.i", "tanh.i", "asinh.i", "acosh.i", "atanh.i"}
Ops2 == {"add.ii", "sub.ii", "mul.ii", "div.ii", "add.cii", "sub.cii", "mul.cii", "div.cii", "min.ii", "max.ii", "hull.ii", "intersect.ii", "fmod.ii"}
Ops3 == {"add.in", "add.ni", "add.cin", "sub.in", "sub.ni", "sub.cin", "mul.in", "mul.ni", "mul.cin", "div.in", "div.ni", "div.cin",
         "min.in", "max.ni", "hull.in", "hull.ni", "widen.in", "fmod.in", "put.n", "put.v", "put.a"}
Obs  == {"lt.ii", "le.ii", "gt.ii", "ge.ii", "eq.ii", "ne.ii", "in.ni", "subset.ii", "proper_subset.ii", "overlap.ii", "equal.ii", "zero_in.i", "singleton.i", "empty.i", "width.i", "median.i", "norm.i", "dparts.ii"}
OpsOf(k) == IF k <= 3 THEN Ops1 ELSE IF k <= 7 THEN Ops2 ELSE IF k <= 10 THEN Ops3 ELSE Obs
Base(o) == LET RECURSIVE at(_) at(i) == IF SubSeq(o, i, i) = "." THEN i - 1 ELSE at(i + 1) IN SubSeq(o, 1, at(1))
S(n) == ToString(n)
Vals == LET RECURSIVE up(_) up(v) == IF v = "+oo" THEN {v} ELSE {v} \union up(XNextUp(F, v)) IN up("-oo")
Pairs == {Z \in Vals \X Vals : XLe(Z[1], Z[2]) /\ (Z[1] # Z[2] \/ XIsFin(Z[1]))}
Tame(Z) == XIsFin(Z[1]) /\ XIsFin(Z[2])
LoadSet == Pairs
TameSet == {Z \in Pairs : Tame(Z)}
Useless(Z) == IsE(Z) \/ Z = Whole
do(s) == hist' = Append(hist, s)
GInit == reg = [r \in Regs |-> <<Zero, Zero>>] /\ wit = [r \in Regs |-> Zero] /\ hist = <<>>
Load(d) == \E w \in {RandomElement(1..6)} :
             IF w = 1 THEN \E k \in {RandomElement(1..99999)} : do("rand:" \o S(d) \o ":" \o S(k)) /\ UNCHANGED ivars
             ELSE \E Z \in {RandomElement(IF w <= 3 THEN LoadSet ELSE TameSet)} : do("load:" \o S(d) \o ":" \o Z[1] \o ":" \o Z[2]) /\ Set(d, Z, Lo(Z))
Known == {"neg", "abs", "square", "inv", "sqrt", "add", "sub", "mul", "div", "min", "max", "hull", "intersect"}
Do(d, a, b, o, k, n) ==
  LET op == Base(o) as == <<reg[a], reg[b]>>
      Z == IF HasE(as) THEN Empty ELSE IF op \in Known THEN Result(op, F, as) ELSE reg[a] IN
  /\ IF o \in Obs THEN UNCHANGED ivars ELSE Put(d, Z, None)
  /\ do(o \o ":" \o S(d) \o ":" \o S(a) \o ":" \o S(b) \o ":" \o k \o ":" \o S(n))
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o " " \o Join(Tail(s))
Flush == Len(hist) = Depth /\ EmitStep(Join(hist)) /\ do("") /\ UNCHANGED ivars
GNext == \/ Flush
         \/ /\ Len(hist) < Depth
            /\ \E d \in {RandomElement(Regs)}, a \in {RandomElement(Regs)}, b \in {RandomElement(Regs)}, c \in {RandomElement(1..12)}, w \in {RandomElement(1..10)} :
               IF Len(hist) < Cardinality(Regs) THEN Load(Len(hist) + 1)
               ELSE IF w <= 1 \/ (Useless(reg[a]) /\ w <= 7) THEN Load(a)
               ELSE \E o \in {RandomElement(OpsOf(c))}, k \in {RandomElement({"l", "u", "m", "c"})}, n \in {RandomElement(-2..5)} : Do(d, a, b, o, k, n)
GSpec == GInit /\ [][GNext]_<<ivars, hist>>
=============================================================================
