-------------------------------- MODULE Api --------------------------------
(* The public interface: for every operation, which outcomes it may return.  *)
(* A step is a record [op, form, fmt, chk, tag, in, out]: operation, operand *)
(* forms, format of the base type, checking policy, free tag, operands and   *)
(* outcome.  Outcomes: <<"I", Z>> an interval, <<"E">> the empty interval,   *)
(* <<"N", v>> a number, <<"B", "T"/"F"/"U">> a truth value, <<"P", Z1, Z2>>  *)
(* a pair of intervals, <<"D", flag, Z...>> the parts of a quotient,         *)
(* <<"X", kind>> an exception ("hang", "crash", ... for other failures).     *)
EXTENDS IntervalSpec

Norm(a)  == IF Len(a) = 1 /\ a[1] # "nan" THEN <<a[1], a[1]>> ELSE a
Norms(as) == [k \in DOMAIN as |-> Norm(as[k])]
IvArgs(r, n) == Norms(SubSeq(r.in, 1, n))
OutIv(o)  == IF o[1] = "I" THEN o[2] ELSE Empty       \* interval of an outcome I or E
IsIvOut(o) == (o[1] = "I" /\ IsIv(o[2]) /\ WellFormed(o[2])) \/ (o[1] = "E")

(* an interval with numbers in it *)
Inhabited(Z) == WellFormed(Z) /\ ~IsE(Z) /\ Lo(Z) # "+oo" /\ Up(Z) # "-oo"
(* the outcome is an interval containing S *)
Covers(S, o) == IsE(S) \/ (o[1] = "I" /\ WellFormed(o[2]) /\ Subset(S, o[2]))
(* the outcome is exactly the outward rounding of S under the policy c *)
Exactly(c, Z, o) == o = MkIv(c, Z)

(* ------------------------------------------------------ C01, C02, C03 -- *)
BinOps == {"add", "sub", "mul", "div"}
Arity(op) == IF op \in {"neg", "pos", "inv", "square", "sqrt", "abs", "norm"} THEN 1 ELSE 2
OkC01(r) == Covers(Exact(r.op, IvArgs(r, Arity(r.op))), r.out)
OkC02(r) == LET as == IvArgs(r, Arity(r.op)) IN
  (r.op = "div" /\ Member(Zero, as[2])) \/ Exactly(r.chk, Result(r.op, r.fmt, as), r.out)

NegHalf(X, Y) == \* quotients on the negative side, 0 in the interior of Y, X of one sign
  IF Neg0(Lo(X)) THEN SDivPos(X, Up(Y)) ELSE SDivNeg(X, Lo(Y))
PosHalf(X, Y) == IF Neg0(Lo(X)) THEN SDivNeg(X, Lo(Y)) ELSE SDivPos(X, Up(Y))
Splits(X, Y) == Straddles(Y) /\ ~Straddles(X) /\ ~IsZero(X)
OkParts(r) ==
  LET X == Norm(r.in[1]) Y == Norm(r.in[2]) c == r.chk f == r.fmt o == r.out
      whole == MkIv(c, Outward(f, SDiv(X, Y)))
      single == o = <<"D", "F", OutIv(whole)>> \/ (whole[1] = "X" /\ o = whole)
      h == Outward(f, NegHalf(X, Y))  g == Outward(f, PosHalf(X, Y))
      split == /\ Len(o) = 5 /\ o[1] = "D" /\ o[2] = "T"
               /\ {o[3], o[4]} = {h, g} /\ o[5] = o[4]
  IN IF Splits(X, Y) THEN (IF Member(Zero, X) THEN split \/ single ELSE split) ELSE single
OkC03(r) == CASE r.op \in {"div", "inv"} -> Exactly(r.chk, Result(r.op, r.fmt, IvArgs(r, Arity(r.op))), r.out)
              [] r.op = "dparts" -> OkParts(r)
              [] r.op = "dpart2f" -> r.out = MkEmpty(r.chk)

(* ------------------------------------------------------ C04, C05, C21 -- *)
OkPow(X, n, f, c, o) ==
  CASE n = 0 -> o = <<"I", <<One, One>>>> \/ (IsZero(X) /\ o = MkEmpty(c))
    [] n = 1 -> o = <<"I", X>>
    [] n > 1 -> Covers(SPow(X, n), o) /\ Subset(o[2], LoosePow(f, X, n))
    [] n < 0 -> IF IsZero(X) THEN o = MkEmpty(c)
                ELSE LET L == IF n = -1 THEN X ELSE LoosePowNeg(f, X, n) IN
                     Covers(SInv(SPowNeg(X, n)), o) /\ Subset(o[2], Outward(f, SInv(L)))
OkPowSym(n, o) == \* pow(X, n) and pow(-X, n)
  IF o[1] = "X" THEN o = XEmpty
  ELSE o[1] = "P" /\ (IF IsE(o[2]) THEN IsE(o[3]) ELSE o[3] = IF n % 2 = 0 THEN o[2] ELSE SNeg(o[2]))
OkC04(r) == LET X == Norm(r.in[1]) IN
  CASE r.op = "square" -> Exactly(r.chk, Result("square", r.fmt, <<X>>), r.out)
    [] r.op = "pow" -> OkPow(X, r.in[2], r.fmt, r.chk, r.out)
    [] r.op = "powsym" -> OkPowSym(r.in[2], r.out)
OkRoot(X, k, c, o) ==
  LET D == IF k % 2 = 0 THEN NonNeg(X) ELSE X IN
  IF IsE(D) THEN o = MkEmpty(c)
  ELSE IF k = 1 THEN o = <<"I", X>>
  ELSE /\ o[1] = "I" /\ WellFormed(o[2])
       /\ LET l == Lo(o[2]) u == Up(o[2]) IN
          /\ ~Neg0(Lo(D)) => ~Neg0(l)
          /\ ~Pos0(Up(D)) => ~Pos0(u)
          /\ XLe(XPow(l, k), Lo(D)) /\ XLe(Up(D), XPow(u, k))
OkC05(r) == LET X == Norm(r.in[1]) IN
  CASE r.op = "sqrt" -> Exactly(r.chk, Result("sqrt", r.fmt, <<X>>), r.out)
    [] r.op = "root" -> OkRoot(X, r.in[2], r.chk, r.out)
(* n * Y, n an integer *)
ShiftBy(X, n, Y) == SSub(X, SMul(<<n, n>>, Y))
OkC21(r) ==
  LET X == Norm(r.in[1]) Y == Norm(r.in[2]) f == r.fmt o == r.out
      p == IF Neg0(Lo(X)) THEN Lo(Y) ELSE Up(Y)
      q == XDiv(Lo(X), p)
      n0 == XFloor(q)
      cands == {n0, XAdd(n0, One), XSub(n0, One), RD(f, n0), RU(f, n0)}
  IN \/ XLt(XMaxFin(f), XAbs(q))              \* the quotient overflows: no claim
     \/ /\ o[1] = "I" /\ WellFormed(o[2])
        /\ \E n \in cands : XIsFin(n) /\ Subset(ShiftBy(X, n, Y), o[2])
        /\ XRep(f, n0) => (~Neg0(Lo(o[2])) /\ XLt(Lo(o[2]), p))

(* ------------------------------------------------------ C06, C07, C08 -- *)
Num(v) == <<"N", v>>
OkC06(r) == LET as == IvArgs(r, Arity(r.op)) IN
  CASE r.op = "norm" -> r.out = Num(NormOf(Norm(r.in[1])))
    [] r.op = "abs"  -> r.out = <<"I", SAbs(Norm(r.in[1]))>>
    [] OTHER -> r.out = <<"I", Exact(r.op, as)>>
OkC07(r) == LET as == Norms(r.in) IN
  IF r.op \in PredOps THEN r.out = B(Pred(r.op, as[1], as[Len(as)]))
  ELSE r.out = MkIv(r.chk, Exact(r.op, as))
OkC08(r) == LET X == Norm(r.in[1]) f == r.fmt o == r.out IN
  CASE r.op = "width"  -> o = Num(IF IsE(X) THEN Zero ELSE WidthOf(f, X))
    [] r.op = "median" -> IF IsE(X) THEN o = Num("nan") ELSE IF ~Bounded(X) THEN TRUE
                          ELSE IF f = "z" THEN o[1] = "N" /\ Member(o[2], X) ELSE o = Num(MedianOf(f, X))
    [] r.op = "bisect" -> IF IsE(X) THEN o = <<"P", Empty, Empty>> ELSE IF ~Bounded(X) THEN TRUE
                          ELSE /\ o[1] = "P" /\ IsIv(o[2]) /\ IsIv(o[3])
                               /\ Lo(o[2]) = Lo(X) /\ Up(o[3]) = Up(X) /\ Up(o[2]) = Lo(o[3])
                               /\ Member(Up(o[2]), X)
    [] r.op = "widen"  -> o = IF IsE(X) THEN MkEmpty(r.chk) ELSE <<"I", Outward(f, Exact("widen", <<X, Norm(r.in[2])>>))>>

(* ------------------------------------------------------ C09, C10, C11 -- *)
OkCmp(r) == LET X == Norm(r.in[1]) Y == Norm(r.in[2]) IN
  r.out \in CmpOuts(r.in[3], r.in[4], IF r.form = "xp" THEN "ii" ELSE r.form, r.chk, X, Y)

(* --------------------------------------------------------------- C12 -- *)
HasNaNNum(a) == \E k \in DOMAIN a : a[k] = "nan"
OkC12(r) == LET a == r.in[1] c == r.chk o == r.out IN
  CASE r.op = "put" ->
         IF HasNaNNum(a) THEN (IF NaNMode(c) = "throw" THEN o = XNaN ELSE o = MkEmpty(c))
         ELSE IF IsE(a) THEN o = MkEmpty(c)
         ELSE IF ~XLe(a[1], a[Len(a)]) THEN o = MkEmpty(c)
         ELSE o = <<"I", Outward(r.fmt, <<a[1], a[Len(a)]>>)>>
    [] r.op = "hull2" ->
         IF HasNaNNum(a) /\ NaNMode(c) = "throw" THEN o = XNaN
         ELSE o = MkIv(c, HullSeq(a))
    [] r.op = "get" -> IF IsE(a) THEN o = Num("nan") \/ (~AdmitsEmpty(c) /\ o = XEmpty)
                       ELSE o = Num(IF r.form \in {"lower", "checked_lower"} THEN Lo(a) ELSE Up(a))

(* --------------------------------------------------------------- C13 -- *)
Fns1 == {"exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"}
OkC13(r) ==
  LET c == r.chk o == r.out f == r.fmt
      as == Norms(IF r.op \in {"pow", "root"} THEN <<r.in[1]>> ELSE r.in) IN
  CASE r.op \in PredOps ->
         (NaNMode(c) = "throw" /\ HasNaN(as) /\ o = XNaN) \/
         ((NaNMode(c) # "throw" \/ ~HasNaN(as) \/ HasE(as)) /\ o = B(Pred(r.op, as[1], as[Len(as)])))
    [] r.op = "hull" ->
         IF NaNMode(c) = "throw" /\ HasNaN(as) THEN o = XNaN
         ELSE o = MkIv(c, LET v(a) == IF IsNaN(a) THEN Empty ELSE a IN HullOf(v(as[1]), v(as[2])))
    [] r.op = "norm" \/ r.op = "median" -> o = Num("nan")
    [] r.op = "width" -> o = Num(Zero)
    [] r.op = "bisect" -> o = <<"P", Empty, Empty>>
    [] r.op = "dparts" -> o = <<"D", "F", Empty>> \/ (o[1] = "X" /\ o \in BadOuts(c, as))
    [] Bad(as) -> o \in BadOuts(c, as)
    \* good operands: the result may be empty
    [] r.op = "pow" -> OkPow(as[1], r.in[2], f, c, o)
    [] r.op = "root" -> OkRoot(as[1], r.in[2], c, o)
    [] r.op \in Fns1 -> IF FnEmpty(r.op, as[1]) THEN o = MkEmpty(c) ELSE TRUE
    [] OTHER -> o = MkIv(c, Result(r.op, f, as))

(* --------------------------------------------------------- C18, C19 -- *)
(* The base type's own functions are trusted up to Slack steps of the format: *)
(* none for the soft formats (correctly rounded), a few for the C library.    *)
Soft(f) == f \notin {"f32", "f64", "f80"}
Slack(f) == IF Soft(f) THEN 0 ELSE 16
RECURSIVE Up1(_, _, _)
Up1(f, a, n) == IF n = 0 THEN a ELSE Up1(f, XNextUp(f, a), n - 1)
RECURSIVE Dn1(_, _, _)
Dn1(f, a, n) == IF n = 0 THEN a ELSE Dn1(f, XNextDn(f, a), n - 1)
Wider(f, X) == IF IsIv(X) THEN <<Dn1(f, Lo(X), Slack(f)), Up1(f, Up(X), Slack(f))>> ELSE X
(* the C library's functions may cross by a few steps for one-point operands  *)
Ordered(f, Z) == IsIv(Z) /\ XIsNum(Lo(Z)) /\ XIsNum(Up(Z)) /\ (XLe(Lo(Z), Up(Z)) \/ (~Soft(f) /\ XSteps(f, Up(Z), Lo(Z)) <= Slack(f)))
(* the library's constants: the generic ones are small integers (formats of   *)
(* four bits and less), f80 has the double ones                               *)
PiUp(f, q) == IF f = "m:8:-10:4" THEN XRound(f, "U", XMul(XRat(13, 2), XMul(q, HalfQ)))
              ELSE IF Soft(f) THEN (IF q = One THEN "1p2" ELSE "1p1")
              ELSE XPiRound(IF f = "f80" THEN "f64" ELSE f, "U", q)
FnLoose(fn, f, X) ==
  LET D == Meet(X, FnDomain(fn)) T == FnTight(fn, f, X) IN
  CASE fn = "asin" -> <<IF Lo(D) = MOne THEN XNeg(PiUp(f, HalfQ)) ELSE Lo(T), IF Up(D) = One THEN PiUp(f, HalfQ) ELSE Up(T)>>
    [] fn = "acos" -> <<Lo(T), IF Lo(D) = MOne THEN PiUp(f, One) ELSE Up(T)>>
    [] OTHER -> T
(* [1,1] and [-1,-1] have no finite inverse hyperbolic tangent *)
FnNoClaim(fn, X) == fn = "atanh" /\ Lo(Meet(X, FnDomain(fn))) = Up(Meet(X, FnDomain(fn))) /\ XAbs(Lo(Meet(X, FnDomain(fn)))) = One
OkFn(fn, f, c, X, o) ==
  IF FnEmpty(fn, X) THEN o = MkEmpty(c)
  ELSE IF FnNoClaim(fn, X) THEN TRUE
  ELSE /\ o[1] = "I" /\ Ordered(f, o[2])
       /\ FnEncloses(fn, X, Wider(f, o[2]))
       /\ LET L == Wider(f, HullOf(FnLoose(fn, f, X), FnTight(fn, f, X))) IN Subset(o[2], L)
(* tightness of sin, cos, tan: where the reduction loses little *)
TrigDelta(f) == CASE f = "f64" -> -40 [] f = "f80" -> -40 [] f = "f32" -> -11 [] OTHER -> -2
TrigRange(f) == CASE f \in {"f64", "f80"} -> XInt(1000) [] f = "f32" -> XInt(1000) [] OTHER -> XInt(7)
TrigNarrow(fn, f, X) == Bounded(X) /\ XLe(NormOf(X), TrigRange(f)) /\ XLe(XSub(Up(X), Lo(X)), One)
TrigRangeOf(fn, X) == \* exact range up to 2^-64
  LET g == "m:80:-200:200"
      l == XMin(XFnRound(fn, g, "D", Lo(X)), XFnRound(fn, g, "D", Up(X)))
      u == XMax(XFnRound(fn, g, "U", Lo(X)), XFnRound(fn, g, "U", Up(X)))
      h1 == IF fn = "cos" THEN CosHas1(X) ELSE SinHas1(X)
      m1 == IF fn = "cos" THEN CosHasM1(X) ELSE SinHasM1(X)
  IN IF fn = "tan" THEN <<l, u>> ELSE <<IF m1 THEN MOne ELSE l, IF h1 THEN One ELSE u>>
OkTrigNarrow(fn, f, X, Z) ==
  LET d == XShl(One, TrigDelta(f)) R == TrigRangeOf(fn, X) IN
  IF fn # "tan" THEN Subset(Z, <<XSub(Lo(R), d), XAdd(Up(R), d)>>)
  ELSE LET e == XShl(d, IF f = "f32" THEN 8 ELSE 16) W == <<XSub(Lo(X), XShl(d, 7)), XAdd(Up(X), XShl(d, 7))>> IN
       (Soft(f) \/ TanHasPole(W) \/ XLt(XInt(IF f = "f32" THEN 8 ELSE 100), NormOf(R))) \/ Subset(Z, <<XSub(Lo(R), e), XAdd(Up(R), e)>>)
OkTrig(fn, f, c, X, o) ==
  /\ o[1] = "I" /\ Ordered(f, o[2])
  /\ TrigEncloses(fn, X, IF fn = "tan" THEN (IF o[2] = Whole THEN Whole ELSE Wider(f, o[2])) ELSE Wider(f, o[2]))
  /\ fn # "tan" => Subset(o[2], <<MOne, One>>)
  /\ (fn = "tan" /\ Bounded(X) /\ TanHasPole(X)) => o[2] = Whole
  /\ (fn # "tan" /\ Bounded(X)) =>
        LET h1 == IF fn = "cos" THEN CosHas1(X) ELSE SinHas1(X)
            m1 == IF fn = "cos" THEN CosHasM1(X) ELSE SinHasM1(X)
        IN (h1 => Up(o[2]) = One) /\ (m1 => Lo(o[2]) = MOne)
  /\ (~Soft(f) \/ f = "m:8:-10:4") => (TrigNarrow(fn, f, X) => OkTrigNarrow(fn, f, X, o[2]))
OkC18(r) == IF r.op \in {"sin", "cos", "tan"} THEN OkTrig(r.op, r.fmt, r.chk, Norm(r.in[1]), r.out)
            ELSE OkFn(r.op, r.fmt, r.chk, Norm(r.in[1]), r.out)
(* ------------------------------------- any operation of the interface -- *)
(* What a step may return, whatever its operation: used for sessions, and for *)
(* C14..C17.  "put" makes an interval of numbers of other types.              *)
Allowed(r) ==
  LET n == IF r.op \in {"pow", "root"} THEN 1 ELSE Len(r.in)
      as == Norms(SubSeq(r.in, 1, n)) o == r.out f == r.fmt c == r.chk IN
  CASE r.op = "put" -> OkC12(r)
    [] r.op = "whole" -> o = <<"I", Whole>>
    [] r.op \in {"cmpall", "text", "pis"} -> o[1] \in {"S", "I"} \/ (Bad(as) /\ o = XNaN)  \* decided by C10, C11, C20, C25
    [] r.op = "recast" -> IF IsE(as[1]) THEN o = MkEmpty(c) ELSE Covers(as[1], o)
    [] NaNUndefined(c, as) -> TRUE
    [] r.op \in Rels -> o \in CmpOuts("def", r.op, "ii", c, as[1], as[2])
    [] r.op \in PredOps \union {"hull"} \/ Bad(as) -> OkC13(r)
    [] r.op = "dparts" -> OkParts(r)
    [] r.op = "norm" -> o = Num(NormOf(as[1]))
    [] r.op \in {"width", "median", "bisect", "widen"} -> OkC08(r)
    \* whatever the quotient: an interval, and not the empty one
    [] r.op = "fmod" -> Pos0(Lo(as[2])) => (o[1] = "I" /\ Inhabited(o[2]) /\ ((Bounded(as[1]) /\ Bounded(as[2])) => OkC21(r)))
    [] r.op \in Fns1 -> OkC18(r)
    [] OTHER -> OkC13(r)
(* C14: the mode after the call, its outcome, and its outcome when the ambient *)
(* mode is to nearest                                                          *)
OkC14(r) == LET q == [r EXCEPT !.out = r.out[2]] IN
  /\ r.out[1] = r.tag
  /\ q.out = <<"X", "fault">> \/ (q.out = r.out[3] /\ Allowed(q))
(* C17: target before, target after, outcome *)
OkC17(r) == LET before == r.out[1] after == r.out[2] o == r.out[3] IN
  CASE o[1] = "X" -> o[2] \in {"fault", "empty", "nan"} /\ after = before
    [] o[1] = "E" -> IsE(after)
    [] o[1] = "I" -> after = o[2] /\ WellFormed(after)
(* C15: the distinct outcomes under all ways to obtain the type.  With the C   *)
(* library's functions two policies may differ by its inaccuracy.              *)
Close(f, a, b) == a = b \/ (XIsNum(a) /\ XIsNum(b) /\ LET d == XSteps(f, a, b) IN d <= 2 * Slack(f) /\ -d <= 2 * Slack(f))
OkC15(r) ==
  IF r.op = "types" THEN \A k \in 2..Len(r.out) : r.out[k] = "T"
  ELSE /\ \A k \in DOMAIN r.out : Allowed([r EXCEPT !.out = r.out[k]])
       /\ \/ Len(r.out) = 1
          \/ /\ ~Soft(r.fmt) /\ r.op \in Fns1
             /\ \A k \in DOMAIN r.out : LET a == r.out[1] b == r.out[k] IN
                  /\ a[1] = "I" /\ b[1] = "I"
                  /\ IF r.op = "tan" THEN (a[2] = Whole \/ b[2] = Whole \/ (Close(r.fmt, Lo(a[2]), Lo(b[2])) /\ Close(r.fmt, Up(a[2]), Up(b[2]))))
                     ELSE Close(r.fmt, Lo(a[2]), Lo(b[2])) /\ Close(r.fmt, Up(a[2]), Up(b[2]))
(* C16: outcome of the form, outcome of the reference form, same object        *)
BoundedOut(o) == o[1] # "I" \/ Bounded(o[2])
OkC16(r) == /\ r.out[3] = "T"
            /\ \/ r.out[1] = r.out[2]
               \/ r.op = "mixed" /\ ~BoundedOut(r.out[2])

(* --------------------------------------------------------------- C24 -- *)
PrimDir(form) == IF Len(form) > 3 /\ SubSeq(form, Len(form) - 2, Len(form)) = "_up" THEN "U" ELSE "D"
PrimFn(form)  == SubSeq(form, 1, Len(form) - (IF PrimDir(form) = "U" THEN 3 ELSE 5))
OkC24(r) ==
  LET d == PrimDir(r.form) fn == PrimFn(r.form) f == r.fmt o == r.out
      x == r.in[1][1] y == r.in[2][1]
      R(v) == Num(XRound(f, d, v)) IN
  CASE r.form = "exact" -> o[2] = o[3]
    [] r.form = "median" -> (r.tag = "x87" /\ Member(o[2], <<x, y>>)) \/ o = Num(MedianOf(f, <<x, y>>))
    [] fn = "conv" -> o = R(x)
    [] fn = "add"  -> o = R(XAdd(x, y))
    [] fn = "sub"  -> o = R(XSub(x, y))
    [] fn = "mul"  -> o = R(XMul(x, y))
    [] fn = "div"  -> o = R(XDiv(x, y))
    [] fn = "sqrt" -> o = Num(XRootRound(f, d, x, 2))
    [] fn = "int"  -> o = R(IF d = "D" THEN XFloor(x) ELSE XCeil(x))
    \* soft formats round their functions correctly; the C library's are taken as they are
    [] fn \in Fns1 -> IF Soft(f) THEN o = Num(XFnRound(fn, f, d, x)) ELSE o[2] \in {r.in[2][1], r.in[3][1]}

(* --------------------------------------------------------- C20, C25 -- *)
(* q*pi: the two neighbours of it in float and double; enclosed by the others *)
OkC20(r) == LET q == r.in[1] o == r.out IN
  /\ o[1] = "I" /\ IsIv(o[2]) /\ XIsFin(Lo(o[2])) /\ XIsFin(Up(o[2])) /\ XLt(Lo(o[2]), Up(o[2]))
  /\ XPiFloor(Lo(o[2]), q) = Zero                    \* 0 <= lo < q*pi
  /\ XLe(One, XPiFloor(Up(o[2]), q))                 \* q*pi <= up
  /\ XRep(r.fmt, Lo(o[2])) /\ XRep(r.fmt, Up(o[2]))
  /\ r.fmt \in {"f32", "f64"} => o[2] = <<XPiRound(r.fmt, "D", q), XPiRound(r.fmt, "U", q)>>
(* text as hexadecimal codes: 5b [  2c ,  5d ] *)
Eps(f) == XSub(XNextUp(f, One), One)
OkC25(r) == LET o == r.out f == r.fmt c == r.chk IN
  CASE r.op = "print" -> o = <<"S", IF IsE(r.in[1]) THEN "5b5d" ELSE "5b" \o r.in[2] \o "2c" \o r.in[3] \o "5d", "T">>
    [] r.op = "print2" -> o = <<"S", "5b" \o r.in[2] \o "2c" \o r.in[3] \o "5d5b" \o r.in[4] \o "2c" \o r.in[5] \o "5d", "T">>
    [] r.form = "const" -> o = B(TRUE)
    [] r.form \in {"quiet_NaN", "signaling_NaN"} -> o = MkEmpty(c)
    [] r.form = "infinity" -> o = <<"I", Whole>>
    [] OTHER -> o = <<"I", Sing(CASE r.form = "max" -> XMaxFin(f) [] r.form = "epsilon" -> Eps(f)
                                  [] r.form = "denorm_min" -> XNextUp(f, Zero) [] r.form = "min" -> XDiv(XNextUp(f, Zero), Eps(f)))>>

(* --------------------------------------------------------------- C23 -- *)
(* operands, larger operands; outcome, outcome on the larger operands.  (The  *)
(* C library's functions are monotone only up to their inaccuracy.)           *)
OkC23(r) ==
  LET m == IF r.op = "pow" THEN (Len(r.in) - 1) \div 2 ELSE Len(r.in) \div 2
      nested == \A k \in 1..m : Subset(Norm(r.in[k]), Norm(r.in[m + k]))
      o == r.out[1] p == r.out[2] IN
  nested => CASE o[1] = "E" -> p[1] \in {"I", "E"}
              [] o[1] = "I" -> p[1] = "I" /\ IsIv(o[2]) /\ IsIv(p[2]) /\ Subset(o[2], IF r.op \in Fns1 /\ ~Soft(r.fmt) THEN Wider(r.fmt, p[2]) ELSE p[2])
              [] OTHER -> FALSE

=============================================================================
