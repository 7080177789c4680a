------------------------------- MODULE SpecMC -------------------------------
(* The set formulas of IntervalSpec and Api against what they stand for: the  *)
(* pointwise definition.  A state is a pair of intervals over a small format. *)
(* Points of an interval: the numbers of a finer grid in it; for unbounded    *)
(* ones some huge numbers; next to zero some tiny ones.                       *)
(*  Sound: a value at points of the operands belongs to the set.              *)
(*  Reached: every end of the set is (up to Eps, or beyond Big) a value.      *)
EXTENDS Api, FiniteSets, TLC
CONSTANTS F
VARIABLES X, Y
Vals == LET RECURSIVE up(_) up(v) == IF v = "+oo" THEN {v} ELSE {v} \union up(XNextUp(F, v)) IN up("-oo")
Ivs  == {Z \in Vals \X Vals : XLe(Z[1], Z[2]) /\ (Z[1] # Z[2] \/ XIsFin(Z[1]))}
Init == X \in Ivs /\ Y = X
Next == Y = X /\ Y' \in Ivs /\ UNCHANGED X
Spec == Init /\ [][Next]_<<X, Y>>
Huge == XShl(One, 40)  Tiny == XShl(One, -40)  Big == XShl(One, 20)  Eps20 == XShl(One, -20)
Grid == {v \in Vals : XIsFin(v)} \union {XShl(XInt(k), -2) : k \in -6..6} \union {Huge, XNeg(Huge), Tiny, XNeg(Tiny)}
Pts(Z) == {v \in Grid : Member(v, Z)}
Near(v, e) == CASE e = "+oo" -> XLe(Big, v) [] e = "-oo" -> XLe(v, XNeg(Big)) [] OTHER -> XLe(XAbs(XSub(v, e)), Eps20)
Is(S, V) == \* S is the closed hull of the values V
  IF V = {} THEN IsE(S)
  ELSE IsIv(S) /\ (\A v \in V : Member(v, S)) /\ (\E v \in V : Near(v, Lo(S))) /\ (\E v \in V : Near(v, Up(S)))
-----------------------------------------------------------------------------
Binary ==
  LET PX == Pts(X) PY == Pts(Y) NY == PY \ {Zero} IN
  /\ Is(SAdd(X, Y), {XAdd(x, y) : x \in PX, y \in PY})
  /\ Is(SSub(X, Y), {XSub(x, y) : x \in PX, y \in PY})
  /\ Is(SMul(X, Y), {XMul(x, y) : x \in PX, y \in PY})
  /\ Is(SDiv(X, Y), {XDiv(x, y) : x \in PX, y \in NY})
  /\ Is(SMin(X, Y), {XMin(x, y) : x \in PX, y \in PY})
  /\ Is(SMax(X, Y), {XMax(x, y) : x \in PX, y \in PY})
  /\ Is(Meet(X, Y), PX \intersect PY)
  /\ Subset(X, Y) <=> PX \subseteq PY
Hulls == LET Z == HullOf(X, Y) IN Subset(X, Z) /\ Subset(Y, Z) /\ \A W \in Ivs : (Subset(X, W) /\ Subset(Y, W)) => Subset(Z, W)
Unary ==
  LET PX == Pts(X) Nz == PX \ {Zero} IN
  /\ Is(SNeg(X), {XNeg(x) : x \in PX}) /\ Is(SAbs(X), {XAbs(x) : x \in PX}) /\ Is(SSquare(X), {XMul(x, x) : x \in PX})
  /\ Is(SInv(X), {XDiv(One, x) : x \in Nz})
  /\ \A n \in 1..4 : Is(SPow(X, n), {XPow(x, n) : x \in PX})
  /\ NormOf(X) = Up(SAbs(X)) /\ IsZero(X) = (PX = {Zero}) /\ Straddles(X) = ((\E x \in PX : Pos0(x)) /\ (\E x \in PX : Neg0(x)))
(* the parts of a quotient are the two sides of the divisor *)
Parts == Splits(X, Y) =>
  LET PX == Pts(X) PY == Pts(Y) neg == {XDiv(x, y) : x \in PX, y \in {q \in PY : Neg0(q)}} pos == {XDiv(x, y) : x \in PX, y \in {q \in PY : Pos0(q)}} IN
  \/ (Is(NegHalf(X, Y), neg) /\ Is(PosHalf(X, Y), pos))
  \/ (Is(NegHalf(X, Y), pos) /\ Is(PosHalf(X, Y), neg))
Rel(r, a, b) == CASE r = "lt" -> XLt(a, b) [] r = "le" -> XLe(a, b) [] r = "gt" -> XLt(b, a) [] r = "ge" -> XLe(b, a) [] r = "eq" -> a = b [] r = "ne" -> a # b
Order == (Bounded(X) /\ Bounded(Y)) =>
  LET PX == Pts(X) PY == Pts(Y) IN
  \A r \in Rels : /\ All(r, X, Y) = (\A x \in PX, y \in PY : Rel(r, x, y))
                  /\ Some(r, X, Y) = (\E x \in PX, y \in PY : Rel(r, x, y))
(* rounding outward encloses, is the least enclosure of the format, and keeps inclusion *)
Ops == {"add", "sub", "mul", "div", "min", "max", "hull", "intersect"}
Rounded == \A op \in Ops : LET E == Exact(op, <<X, Y>>) R == Result(op, F, <<X, Y>>) IN
  IF IsE(E) THEN IsE(R) ELSE Subset(E, R) /\ \A W \in Ivs : Subset(E, W) => Subset(R, W)
Grow(Z) == {W \in Ivs : (W[1] = Z[1] /\ W[2] = XNextUp(F, Z[2])) \/ (W[2] = Z[2] /\ W[1] = XNextDn(F, Z[1]))}
Isotone == \A op \in Ops : LET R == Result(op, F, <<X, Y>>) IN
  /\ \A W \in Grow(X) : Subset(R, Result(op, F, <<W, Y>>))
  /\ \A V \in Grow(Y) : Subset(R, Result(op, F, <<X, V>>))
(* the loosest powers and roots allowed still enclose *)
Loose == \A n \in 1..5 : Subset(SPow(X, n), LoosePow(F, X, n))
(* multiples of pi: brute force over the multiples in reach *)
At(k, s, p) == XAdd(XMul(XInt(k), p), s)               \* the multiple, as a coefficient of pi
In(q, Z) == \* q*pi in Z: by the sides of pi; 0 exactly
  IF q = Zero THEN Member(Zero, Z) ELSE IF Pos0(q) THEN XLe(One, XPiFloor(Up(Z), q)) /\ XLt(XPiFloor(Lo(Z), q), One)
  ELSE LET m == XNeg(q) IN XLe(MOne, XPiFloor(Up(Z), m)) /\ XLe(XPiFloor(Lo(Z), m), XInt(-2))
Pi == Bounded(X) => \A s \in {Zero, One, HalfQ, XNeg(HalfQ)}, p \in {One, Two} : KPi(X, s, p) = (\E k \in -9..9 : In(At(k, s, p), X))
Correct == Binary /\ Hulls /\ Unary /\ Parts /\ Order /\ Rounded /\ Isotone /\ Loose /\ Pi
=============================================================================
