--------------------------- MODULE IntervalSpec ----------------------------
(* What every operation of the interval library must return, stated on sets *)
(* of reals.  An interval is <<lo, up>> (a closed set of extended reals),    *)
(* the empty interval is <<>>, and <<"nan">> marks a number operand that is  *)
(* not a number.  Nothing here follows the library's own case analyses: the  *)
(* range of an operation is obtained from the corners of its operands or     *)
(* from the definition of the set, and SpecMC.tla checks those formulas      *)
(* against the pointwise definition.                                         *)
EXTENDS XReal, Integers, Sequences

Empty    == <<>>
NaNArg   == <<"nan">>
Whole    == <<"-oo", "+oo">>
Lo(X)    == X[1]
Up(X)    == X[2]
IsE(X)   == Len(X) = 0
IsNaN(X) == Len(X) = 1
IsIv(X)  == Len(X) = 2
Sing(v)  == IF v = "nan" THEN NaNArg ELSE <<v, v>>
Zero     == "0"
One      == "1p0"
MOne     == "-1p0"
Two      == "1p1"
HalfQ    == "1p-1"
Neg0(a)  == XSgn(a) < 0
Pos0(a)  == XSgn(a) > 0

(* Well-formed: empty, or bounds that are numbers in order. *)
WellFormed(X) == IsE(X) \/ (IsIv(X) /\ XIsNum(Lo(X)) /\ XIsNum(Up(X)) /\ XLe(Lo(X), Up(X)))
Bounded(X)    == IsIv(X) /\ XIsFin(Lo(X)) /\ XIsFin(Up(X))
HasReals(X)   == IsIv(X) /\ Lo(X) # "+oo" /\ Up(X) # "-oo"
Member(t, X)  == IsIv(X) /\ XLe(Lo(X), t) /\ XLe(t, Up(X))
Subset(X, Y)  == IsE(X) \/ (IsIv(Y) /\ XLe(Lo(Y), Lo(X)) /\ XLe(Up(X), Up(Y)))
Straddles(X)  == IsIv(X) /\ Neg0(Lo(X)) /\ Pos0(Up(X))
IsZero(X)     == IsIv(X) /\ Lo(X) = Zero /\ Up(X) = Zero

(* ---------------------------------------------------------------- sets -- *)
HullOf(X, Y) == IF IsE(X) THEN Y ELSE IF IsE(Y) THEN X ELSE <<XMin(Lo(X), Lo(Y)), XMax(Up(X), Up(Y))>>
Meet(X, Y)   == IF IsE(X) \/ IsE(Y) THEN Empty
                ELSE LET l == XMax(Lo(X), Lo(Y)) u == XMin(Up(X), Up(Y)) IN IF XLe(l, u) THEN <<l, u>> ELSE Empty
(* Least interval containing the numbers of a sequence, ignoring "nan".      *)
RECURSIVE HullSeq(_)
HullSeq(s) == IF s = <<>> THEN Empty
              ELSE LET r == HullSeq(Tail(s)) IN IF Head(s) = "nan" THEN r ELSE HullOf(<<Head(s), Head(s)>>, r)

SNeg(X)    == <<XNeg(Up(X)), XNeg(Lo(X))>>
SAdd(X, Y) == <<XAdd(Lo(X), Lo(Y)), XAdd(Up(X), Up(Y))>>
SSub(X, Y) == <<XSub(Lo(X), Up(Y)), XSub(Up(X), Lo(Y))>>
SMul(X, Y) == HullSeq(<<XMul(Lo(X), Lo(Y)), XMul(Lo(X), Up(Y)), XMul(Up(X), Lo(Y)), XMul(Up(X), Up(Y))>>)
(* {x/y : x in X, y in Y}, Y without zero *)
SDivNZ(X, Y) == HullSeq(<<XDiv(Lo(X), Lo(Y)), XDiv(Lo(X), Up(Y)), XDiv(Up(X), Lo(Y)), XDiv(Up(X), Up(Y))>>)
(* {x/y : x in X, 0 < y <= b} *)
SDivPos(X, b) == <<IF Neg0(Lo(X)) THEN "-oo" ELSE XDiv(Lo(X), b),
                   IF Pos0(Up(X)) THEN "+oo" ELSE XDiv(Up(X), b)>>
(* {x/y : x in X, a <= y < 0} *)
SDivNeg(X, a) == SDivPos(SNeg(X), XNeg(a))
SDiv(X, Y) ==
  IF ~Member(Zero, Y) THEN SDivNZ(X, Y)
  ELSE IF IsZero(Y) THEN Empty
  ELSE IF IsZero(X) THEN <<Zero, Zero>>
  ELSE HullOf(IF Neg0(Lo(Y)) THEN SDivNeg(X, Lo(Y)) ELSE Empty,
              IF Pos0(Up(Y)) THEN SDivPos(X, Up(Y)) ELSE Empty)
SInv(Y)    == SDiv(<<One, One>>, Y)
SAbs(X)    == LET a == XAbs(Lo(X)) b == XAbs(Up(X)) IN
              <<IF Member(Zero, X) THEN Zero ELSE XMin(a, b), XMax(a, b)>>
SSquare(X) == LET A == SAbs(X) IN <<XMul(Lo(A), Lo(A)), XMul(Up(A), Up(A))>>
SMin(X, Y) == <<XMin(Lo(X), Lo(Y)), XMin(Up(X), Up(Y))>>
SMax(X, Y) == <<XMax(Lo(X), Lo(Y)), XMax(Up(X), Up(Y))>>
(* {t^n : t in X}, n >= 1 *)
SPow(X, n) == IF n % 2 = 1 THEN <<XPow(Lo(X), n), XPow(Up(X), n)>>
              ELSE LET A == SAbs(X) IN <<XPow(Lo(A), n), XPow(Up(A), n)>>
(* part of X in the domain of the even roots *)
NonNeg(X)  == Meet(X, <<Zero, "+oo">>)

(* ------------------------------------------------------------ rounding -- *)
RD(f, a)   == XRound(f, "D", a)
RU(f, a)   == XRound(f, "U", a)
Outward(f, X) == IF IsIv(X) THEN <<RD(f, Lo(X)), RU(f, Up(X))>> ELSE X

SqrtF(f, X) == LET D == NonNeg(X) IN IF IsE(D) THEN Empty
               ELSE <<XRootRound(f, "D", Lo(D), 2), XRootRound(f, "U", Up(D), 2)>>

(* Powers by repeated rounded multiplication: the loosest enclosure allowed.  *)
(* d = "D" / "U"; a >= 0.                                                     *)
RECURSIVE PowBin(_, _, _, _, _)   \* right-to-left binary method
PowBin(f, d, x, y, n) == IF n = 0 THEN y
  ELSE LET x2 == XRound(f, d, XMul(x, x)) IN
       PowBin(f, d, x2, IF n % 2 = 1 THEN XRound(f, d, XMul(x2, y)) ELSE y, n \div 2)
PowDir(f, d, a, n) == PowBin(f, d, a, IF n % 2 = 1 THEN a ELSE One, n \div 2)
RECURSIVE PowNaive(_, _, _, _)
PowNaive(f, d, a, n) == IF n = 1 THEN a ELSE XRound(f, d, XMul(PowNaive(f, d, a, n - 1), a))
(* Large exponents: by the usual error analysis, n roundings amount to at most *)
(* a relative 2n eps and, among the subnormals, an absolute n steps.           *)
PowErr(f, d, a, n) ==
  LET v == XPow(a, n) k == XInt(n)
      eps == XSub(XNextUp(f, One), One) tiny == XNextUp(f, Zero)
      e == XAdd(XMul(v, XMul(XInt(2), XMul(k, eps))), XMul(k, tiny))
  IN IF ~XIsFin(v) \/ v = Zero \/ XLt(XMaxFin(f), v) THEN v
     ELSE IF XLt(v, tiny) THEN (IF d = "U" THEN XMul(k, tiny) ELSE Zero)
     ELSE XRound(f, d, IF d = "U" THEN XAdd(v, e) ELSE XMax(Zero, XSub(v, e)))
PowLoLoose(f, a, n) == XMin(PowDir(f, "D", a, n), IF n > 40 THEN PowErr(f, "D", a, n) ELSE PowNaive(f, "D", a, n))
PowUpLoose(f, a, n) == XMax(PowDir(f, "U", a, n), IF n > 40 THEN PowErr(f, "U", a, n) ELSE PowNaive(f, "U", a, n))
LoosePow(f, X, n) ==
  LET A == SAbs(X) IN
  IF n % 2 = 0 THEN <<PowLoLoose(f, Lo(A), n), PowUpLoose(f, Up(A), n)>>
  ELSE <<IF Neg0(Lo(X)) THEN XNeg(PowUpLoose(f, XNeg(Lo(X)), n)) ELSE PowLoLoose(f, Lo(X), n),
         IF Neg0(Up(X)) THEN XNeg(PowLoLoose(f, XNeg(Up(X)), n)) ELSE PowUpLoose(f, Up(X), n)>>

(* The same for -n, n < 0: the opposite of the least int is no int of TLC's    *)
NegInt(n) == n < -2147483647
SPowNeg(X, n) == IF NegInt(n) THEN SSquare(SPow(X, 1073741824)) ELSE SPow(X, -n)
LoosePowNeg(f, X, n) == IF NegInt(n) THEN Outward(f, SSquare(LoosePow(f, X, 1073741824))) ELSE LoosePow(f, X, -n)

(* The interval functions whose result is completely determined: exact range, *)
(* bounds rounded outward.                                                    *)
Tight == {"neg", "pos", "add", "sub", "mul", "div", "inv", "square", "sqrt", "abs", "min", "max", "hull", "intersect", "widen"}
Exact(op, as) ==
  CASE op = "neg" -> SNeg(as[1])
    [] op = "pos" -> as[1]
    [] op = "add" -> SAdd(as[1], as[2])
    [] op = "sub" -> SSub(as[1], as[2])
    [] op = "mul" -> SMul(as[1], as[2])
    [] op = "div" -> SDiv(as[1], as[2])
    [] op = "inv" -> SInv(as[1])
    [] op = "square" -> SSquare(as[1])
    [] op = "abs" -> SAbs(as[1])
    [] op = "min" -> SMin(as[1], as[2])
    [] op = "max" -> SMax(as[1], as[2])
    [] op = "hull" -> HullOf(as[1], as[2])
    [] op = "intersect" -> Meet(as[1], as[2])
    [] op = "widen" -> <<XSub(Lo(as[1]), Lo(as[2])), XAdd(Up(as[1]), Up(as[2]))>>
Result(op, f, as) == IF op = "sqrt" THEN SqrtF(f, as[1]) ELSE Outward(f, Exact(op, as))

(* ---------------------------------------------------- checking policies -- *)
(* base: checking_base          ne: checking_no_empty<checking_base>          *)
(* nn:   checking_no_nan        cn: checking_catch_nan<checking_base>         *)
(* st:   checking_strict        cne: checking_catch_nan<checking_no_empty>    *)
AdmitsEmpty(c) == c \in {"base", "nn", "cn"}
NaNMode(c) == CASE c \in {"base", "ne"} -> "detect" [] c \in {"nn", "st"} -> "ignore" [] c \in {"cn", "cne"} -> "throw"
XEmpty == <<"X", "empty">>       \* the exception of the no-empty policy
XNaN   == <<"X", "nan">>         \* the exception of the catch-nan policy
XCmpE  == <<"X", "cmp">>         \* comparison_error
MkEmpty(c) == IF AdmitsEmpty(c) THEN <<"E">> ELSE XEmpty
MkIv(c, X) == IF IsE(X) THEN MkEmpty(c) ELSE <<"I", X>>
HasNaN(as) == \E i \in DOMAIN as : IsNaN(as[i])
HasE(as)   == \E i \in DOMAIN as : IsE(as[i])
Bad(as)    == \E i \in DOMAIN as : Len(as[i]) # 2
(* Outcomes allowed for an interval-valued operation given an empty or NaN    *)
(* operand.  (With both kinds present, either consequence.)                   *)
BadOuts(c, as) ==
  IF HasNaN(as) THEN
    CASE NaNMode(c) = "detect" -> {MkEmpty(c)}
      [] NaNMode(c) = "throw"  -> IF HasE(as) THEN {XNaN, MkEmpty(c)} ELSE {XNaN}
      [] NaNMode(c) = "ignore" -> {}
  ELSE {MkEmpty(c)}
NaNUndefined(c, as) == HasNaN(as) /\ NaNMode(c) = "ignore"

(* -------------------------------------------------------- truth values -- *)
B(b) == <<"B", IF b THEN "T" ELSE "F">>
Pred(op, X, Y) ==
  CASE op = "in"       -> ~IsNaN(X) /\ Member(Lo(X), Y)
    [] op = "zero_in"  -> Member(Zero, X)
    [] op = "empty"    -> IsE(X)
    [] op = "singleton" -> IsIv(X) /\ Lo(X) = Up(X)
    [] op = "subset"   -> Subset(X, Y)
    [] op = "proper_subset" -> Subset(X, Y) /\ X # Y
    [] op = "overlap"  -> ~IsE(Meet(X, Y))
    [] op = "equal"    -> X = Y
PredOps == {"in", "zero_in", "empty", "singleton", "subset", "proper_subset", "overlap", "equal"}

(* A relation over all / some pairs of elements of two intervals.            *)
Rels == {"lt", "le", "gt", "ge", "eq", "ne"}
All(r, X, Y) ==
  CASE r = "lt" -> XLt(Up(X), Lo(Y))
    [] r = "le" -> XLe(Up(X), Lo(Y))
    [] r = "gt" -> XLt(Up(Y), Lo(X))
    [] r = "ge" -> XLe(Up(Y), Lo(X))
    [] r = "eq" -> XLe(Up(X), Lo(Y)) /\ XLe(Up(Y), Lo(X))
    [] r = "ne" -> XLt(Up(X), Lo(Y)) \/ XLt(Up(Y), Lo(X))
NegRel(r) == CASE r = "lt" -> "ge" [] r = "le" -> "gt" [] r = "gt" -> "le" [] r = "ge" -> "lt" [] r = "eq" -> "ne" [] r = "ne" -> "eq"
Some(r, X, Y) == ~All(NegRel(r), X, Y)
(* lexicographic order on (lower, upper) *)
Lex(X, Y) == LET c == XCmp(Lo(X), Lo(Y)) IN IF c # 0 THEN c ELSE XCmp(Up(X), Up(Y))
Holds(r, c) == CASE r = "lt" -> c < 0 [] r = "le" -> c <= 0 [] r = "gt" -> c > 0 [] r = "ge" -> c >= 0 [] r = "eq" -> c = 0 [] r = "ne" -> c # 0
SetRel(r, X, Y) ==
  CASE r = "lt" -> Pred("proper_subset", X, Y)
    [] r = "le" -> Subset(X, Y)
    [] r = "gt" -> Pred("proper_subset", Y, X)
    [] r = "ge" -> Subset(Y, X)
    [] r = "eq" -> X = Y
    [] r = "ne" -> X # Y
Tri(all, none) == <<"B", IF all THEN "T" ELSE IF none THEN "F" ELSE "U">>
(* fam: def, cer, pos, tri, lex, set (operators), xcer, xpos (explicit functions) *)
(* form: which operands are numbers                                          *)
CmpOuts(fam, r, form, c, X, Y) ==
  IF fam = "set" THEN IF form = "ii" THEN {B(SetRel(r, X, Y))} ELSE {XCmpE}
  ELSE IF Bad(<<X, Y>>) THEN
    IF HasNaN(<<X, Y>>) /\ NaNMode(c) = "throw"
    THEN IF HasE(<<X, Y>>) THEN {XNaN, XCmpE} ELSE {XNaN}
    ELSE {XCmpE}
  ELSE CASE fam = "def" -> {IF All(r, X, Y) THEN B(TRUE) ELSE IF ~Some(r, X, Y) THEN B(FALSE) ELSE XCmpE}
         [] fam \in {"cer", "xcer"} -> {B(All(r, X, Y))}
         [] fam \in {"pos", "xpos"} -> {B(Some(r, X, Y))}
         [] fam = "tri" -> {Tri(All(r, X, Y), ~Some(r, X, Y))}
         [] fam = "lex" -> {B(Holds(r, Lex(X, Y)))}

(* ----------------------------------------------------- number results -- *)
WidthOf(f, X)  == RU(f, XSub(Up(X), Lo(X)))
Mid(X)         == XShl(XAdd(Lo(X), Up(X)), -1)
MedianOf(f, X) == XRound(f, "N", Mid(X))
NormOf(X)      == Up(SAbs(X))

(* ------------------------------------------------ elementary functions -- *)
(* Monotone functions: direction, and the part of the real line where they   *)
(* are defined (closed hull).                                                *)
MonoFns == {"exp", "log", "asin", "acos", "atan", "sinh", "tanh", "asinh", "acosh", "atanh", "cosh"}
Increasing(fn) == fn # "acos"
FnDomain(fn) ==
  CASE fn = "log" -> <<Zero, "+oo">>
    [] fn \in {"asin", "acos", "atanh"} -> <<MOne, One>>
    [] fn = "acosh" -> <<One, "+oo">>
    [] OTHER -> Whole
(* no point of X where fn has a value (log: 0 itself is outside)             *)
FnEmpty(fn, X) == LET D == Meet(X, FnDomain(fn)) IN IsE(D) \/ (fn = "log" /\ Up(D) = Zero)
(* points of the clipped operand where the least / greatest value is reached *)
FnArgs(fn, X) == LET D == Meet(X, FnDomain(fn)) IN
  IF fn = "cosh" THEN LET A == SAbs(D) IN A
  ELSE IF Increasing(fn) THEN D ELSE <<Up(D), Lo(D)>>
(* exact test fn(X) \subseteq Z *)
FnEncloses(fn, X, Z) == LET a == FnArgs(fn, X) IN
  IsIv(Z) /\ XFnCmp(fn, a[1], Lo(Z)) >= 0 /\ XFnCmp(fn, a[2], Up(Z)) <= 0
FnTight(fn, f, X) == LET a == FnArgs(fn, X) IN <<XFnRound(fn, f, "D", a[1]), XFnRound(fn, f, "U", a[2])>>

(* multiples of pi: is there an integer k (of the given parity) with          *)
(* k*pi in X ?  X bounded.                                                    *)
KPi(X, shift, period) == \* some integer k with (k*period + shift)*pi in X; shift, period rationals
  LET lo == XSub(XShl(XPiFloor(Lo(X), HalfQ), 0), XShl(shift, 1))   \* floor(lo/(pi/2)) - 2*shift, in half-pi units
      hi == XSub(XPiFloor(Up(X), HalfQ), XShl(shift, 1))
      p2 == XShl(period, 1)
      \* least k with k*p2 >= ceil(lo') where the k-th point is >= Lo(X): pi is irrational, so a
      \* nonzero Lo(X) lies strictly between two half-multiples
      first == XCeil(XDiv(IF Lo(X) = Zero THEN lo ELSE XAdd(lo, One), p2))
  IN XLe(XMul(first, p2), hi)
CosHas1(X)  == KPi(X, Zero, Two)
CosHasM1(X) == KPi(X, One, Two)
SinHas1(X)  == KPi(X, HalfQ, Two)
SinHasM1(X) == KPi(X, XNeg(HalfQ), Two)
TanHasPole(X) == KPi(X, HalfQ, One)
TrigEncloses(fn, X, Z) ==
  IF ~IsIv(Z) THEN FALSE
  ELSE IF ~Bounded(X) THEN (IF fn = "tan" THEN Z = Whole ELSE Subset(<<MOne, One>>, Z))
  ELSE IF fn = "tan" THEN
       IF TanHasPole(X) THEN Z = Whole
       ELSE XFnCmp(fn, Lo(X), Lo(Z)) >= 0 /\ XFnCmp(fn, Up(X), Up(Z)) <= 0
  ELSE LET h1 == IF fn = "cos" THEN CosHas1(X) ELSE SinHas1(X)
           m1 == IF fn = "cos" THEN CosHasM1(X) ELSE SinHasM1(X)
       IN /\ (h1 => XLe(One, Up(Z))) /\ (m1 => XLe(Lo(Z), MOne))
          /\ \A e \in {Lo(X), Up(X)} : XFnCmp(fn, e, Lo(Z)) >= 0 /\ XFnCmp(fn, e, Up(Z)) <= 0
=============================================================================
