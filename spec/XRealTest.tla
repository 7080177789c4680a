----------------------------- MODULE XRealTest ------------------------------
(* The exact-arithmetic class java/XReal.java against definitions in plain    *)
(* TLA+.  Each state is one test: a kind and its operands (integers).         *)
(*  arith  n/d and m/e: every rational operation, order, floor                *)
(*  ext    operations on the infinities                                       *)
(*  round  n/d in a small format: a format is a finite set of rationals       *)
(*  step   neighbours in a small format                                       *)
(*  root   n/d, k: integer roots in a small format                            *)
(*  pi     pi is between 333/106 and 355/113                                  *)
(*  fn     elementary functions against their power series (exact rational    *)
(*         sums with their remainders), their inverses against them           *)
EXTENDS XReal, Integers, Sequences, FiniteSets, TLC
VARIABLE t
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Rat == {<<n, d>> : n \in -7..7, d \in {1, 2, 3, 4, 5}}
Few == {<<n, d>> : n \in {-9, -5, -3, -2, -1, 0, 1, 2, 3, 7, 12}, d \in {1, 2, 3, 8}}
Q(r) == XRat(r[1], r[2])
Cmp(r, s) == Sgn(r[1] * s[2] - s[1] * r[2])
Inf == <<"+oo", "-oo">>

(* --------------------------------------------------------- arithmetic -- *)
Arith(r, s) ==
  LET a == Q(r) b == Q(s) IN
  /\ XAdd(a, b) = XRat(r[1] * s[2] + s[1] * r[2], r[2] * s[2])
  /\ XSub(a, b) = XRat(r[1] * s[2] - s[1] * r[2], r[2] * s[2])
  /\ XMul(a, b) = XRat(r[1] * s[1], r[2] * s[2])
  /\ s[1] # 0 => XDiv(a, b) = XRat(Sgn(s[1]) * r[1] * s[2], r[2] * Sgn(s[1]) * s[1])
  /\ s[1] = 0 => XDiv(a, b) = "nan"
  /\ XCmp(a, b) = Cmp(r, s) /\ XLe(a, b) = (Cmp(r, s) <= 0) /\ XLt(a, b) = (Cmp(r, s) < 0) /\ (a = b) = (Cmp(r, s) = 0)
  /\ XMin(a, b) = (IF Cmp(r, s) <= 0 THEN a ELSE b) /\ XMax(a, b) = (IF Cmp(r, s) >= 0 THEN a ELSE b)
  /\ XNeg(a) = XRat(-r[1], r[2]) /\ XAbs(a) = XRat(IF r[1] < 0 THEN -r[1] ELSE r[1], r[2]) /\ XSgn(a) = Sgn(r[1])
  /\ XFloor(a) = XInt(r[1] \div r[2]) /\ XCeil(a) = XInt(-((-r[1]) \div r[2]))
  /\ XPow(a, 0) = XInt(1) /\ XPow(a, 3) = XRat(r[1] * r[1] * r[1], r[2] * r[2] * r[2])
  /\ XShl(a, 3) = XRat(8 * r[1], r[2]) /\ XShl(a, -3) = XRat(r[1], 8 * r[2])
  /\ XIsNum(a) /\ XIsFin(a) /\ XOdd(a) = (r[1] % r[2] = 0 /\ (r[1] \div r[2]) % 2 = 1)
Ext(r) ==
  LET a == Q(r) IN
  /\ XAdd(a, "+oo") = "+oo" /\ XAdd("-oo", a) = "-oo" /\ XSub(a, "+oo") = "-oo" /\ XAdd("+oo", "-oo") = "nan" /\ XSub("+oo", "+oo") = "nan"
  /\ XMul(a, "+oo") = (IF r[1] = 0 THEN "0" ELSE IF r[1] > 0 THEN "+oo" ELSE "-oo") /\ XMul("-oo", a) = XNeg(XMul(a, "+oo"))
  /\ XDiv(a, "+oo") = "0" /\ XDiv(a, "-oo") = "0" /\ XDiv("+oo", "+oo") = "nan" /\ (r[1] # 0 => XDiv("+oo", a) = (IF r[1] > 0 THEN "+oo" ELSE "-oo"))
  /\ XLt(a, "+oo") /\ XLt("-oo", a) /\ XLe("+oo", "+oo") /\ ~XLt("+oo", "+oo") /\ XCmp("-oo", "+oo") = -1
  /\ ~XLe("nan", a) /\ ~XLe(a, "nan") /\ ~XLt("nan", "+oo") /\ ~XIsNum("nan") /\ XIsNum("+oo") /\ ~XIsFin("-oo") /\ ~XIsFin("nan")
  /\ XAdd("nan", a) = "nan" /\ XMul(a, "nan") = "nan" /\ XNeg("+oo") = "-oo" /\ XAbs("-oo") = "+oo" /\ XPow("-oo", 3) = "-oo" /\ XPow("-oo", 2) = "+oo"

(* ----------------------------------------------------------- formats -- *)
(* the finite numbers of the format m:p:a:b, in units of 2^a, a <= 0 <= b-a   *)
Two(k) == 2 ^ k
Fin(p, a, b) == {s * m * Two(q - a) : s \in {-1, 1}, m \in 0..(Two(p) - 1), q \in a..b}
Unit(a) == Two(-a)                                  \* a <= 0: 2^-a units in 1
Val(u, a) == XRat(u, Unit(a))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* v = n/d in units: n*2^-a / d *)
Below(S, n, d) == {u \in S : u * d <= n}
Above(S, n, d) == {u \in S : u * d >= n}
Even(l, u) == (l \div (u - l)) % 2 = 0             \* of two neighbours, l is the even multiple of their distance
DefRound(p, a, b, d, r) ==
  LET S == Fin(p, a, b) n == r[1] * Unit(a) dd == r[2]
      dn == Below(S, n, dd) up == Above(S, n, dd)
      D == IF dn = {} THEN "-oo" ELSE Val(MaxOf(dn), a)
      U == IF up = {} THEN "+oo" ELSE Val(MinOf(up), a)
      big == MaxOf(S)  half == Two(b - a)             \* half a quantum past big overflows
      N == IF 2 * n >= (2 * big + half) * dd THEN "+oo" ELSE IF 2 * n <= -(2 * big + half) * dd THEN "-oo"
           ELSE IF up = {} THEN D ELSE IF dn = {} THEN U
           ELSE LET l == MaxOf(dn) u == MinOf(up) c == Sgn(2 * n - (l + u) * dd) IN
                IF l = u THEN D ELSE IF c < 0 THEN D ELSE IF c > 0 THEN U ELSE IF Even(l, u) THEN D ELSE U
  IN CASE d = "D" -> D [] d = "U" -> U [] d = "N" -> N [] d = "Z" -> IF r[1] >= 0 THEN D ELSE U
Formats == {<<2, -1, 1>>, <<3, -2, 1>>, <<1, -1, 2>>, <<4, -3, 2>>}
F(g) == "m:" \o ToString(g[1]) \o ":" \o ToString(g[2]) \o ":" \o ToString(g[3])
Round(g, r) ==
  /\ \A d \in {"D", "U", "N", "Z"} : XRound(F(g), d, Q(r)) = DefRound(g[1], g[2], g[3], d, r)
  /\ XRep(F(g), Q(r)) = (\E u \in Fin(g[1], g[2], g[3]) : u * r[2] = r[1] * Unit(g[2]))
  /\ XRound("q", "D", Q(r)) = Q(r) /\ XRound("q", "N", Q(r)) = Q(r)
  /\ XRound("z", "D", Q(r)) = XInt(r[1] \div r[2]) /\ XRound("z", "U", Q(r)) = XInt(-((-r[1]) \div r[2]))
Step(g, u) == LET S == Fin(g[1], g[2], g[3]) hi == {x \in S : x > u} lo == {x \in S : x < u} v == Val(u, g[2]) IN
  u \in S =>
  /\ XNextUp(F(g), v) = (IF hi = {} THEN "+oo" ELSE Val(MinOf(hi), g[2]))
  /\ XNextDn(F(g), v) = (IF lo = {} THEN "-oo" ELSE Val(MaxOf(lo), g[2]))
  /\ XMaxFin(F(g)) = Val(MaxOf(S), g[2]) /\ XNextUp(F(g), "-oo") = Val(MinOf(S), g[2])
  /\ \A x \in S : XSteps(F(g), v, Val(x, g[2])) = (IF x >= u THEN Cardinality({y \in S : u < y /\ y <= x}) ELSE -Cardinality({y \in S : x <= y /\ y < u}))
Hardware ==
  /\ XMaxFin("f32") = XMul(XSub(XInt(16777216), XInt(1)), XShl(XInt(1), 104)) /\ XNextUp("f32", "0") = XShl(XInt(1), -149) /\ XNextUp("f32", XInt(1)) = XAdd(XInt(1), XShl(XInt(1), -23))
  /\ XMaxFin("f64") = XMul(XSub(XShl(XInt(1), 53), XInt(1)), XShl(XInt(1), 971)) /\ XNextUp("f64", "0") = XShl(XInt(1), -1074) /\ XNextUp("f64", XInt(1)) = XAdd(XInt(1), XShl(XInt(1), -52))
  /\ XMaxFin("f80") = XMul(XSub(XShl(XInt(1), 64), XInt(1)), XShl(XInt(1), 16320)) /\ XNextUp("f80", "0") = XShl(XInt(1), -16445) /\ XNextUp("f80", XInt(1)) = XAdd(XInt(1), XShl(XInt(1), -63))
  /\ \A f \in {"f32", "f64", "f80"} : LET w == CASE f = "f32" -> 24 [] f = "f64" -> 53 [] OTHER -> 64 o == XInt(1) e == XShl(o, -w) IN
       /\ XRound(f, "N", XAdd(o, e)) = o /\ XRound(f, "N", XAdd(o, XShl(XInt(3), -w))) = XAdd(o, XShl(o, 2 - w)) /\ XRound(f, "U", XAdd(o, XShl(o, -200))) = XNextUp(f, o) /\ XRound(f, "D", XSub(o, XShl(o, -200))) = XNextDn(f, o)
       /\ XRound(f, "D", XMul(XMaxFin(f), XInt(2))) = XMaxFin(f) /\ XRound(f, "U", XMul(XMaxFin(f), XInt(2))) = "+oo" /\ XRound(f, "D", XNeg(XMul(XMaxFin(f), XInt(2)))) = "-oo"
(* k-th root of n/d >= 0: the greatest x with x^k <= n/d, the least with x^k >= n/d *)
Root(g, r, k) ==
  LET S == {u \in Fin(g[1], g[2], g[3]) : u >= 0} w == Unit(g[2]) ^ k
      dn == MaxOf({u \in S : (u ^ k) * r[2] <= r[1] * w}) up == {u \in S : (u ^ k) * r[2] >= r[1] * w} IN
  r[1] >= 0 => /\ XRootRound(F(g), "D", Q(r), k) = Val(dn, g[2])
               /\ XRootRound(F(g), "U", Q(r), k) = (IF up = {} THEN "+oo" ELSE Val(MinOf(up), g[2]))
(* floor(n/d / (k/2*pi)) for the integers that 333/106 < pi < 355/113 settle *)
PiFloor(r, k) ==
  LET lo == (r[1] * 2 * 113) \div (r[2] * k * 355) hi == (r[1] * 2 * 106) \div (r[2] * k * 333) IN
  /\ lo = hi => XPiFloor(Q(r), XRat(k, 2)) = XInt(lo)
  /\ XLt(XRat(333, 106), XPiRound("f64", "D", XInt(1))) /\ XLt(XPiRound("f64", "U", XInt(1)), XRat(355, 113))
  /\ XNextUp("f64", XPiRound("f64", "D", XInt(1))) = XPiRound("f64", "U", XInt(1))

(* ------------------------------------------------------ power series -- *)
RECURSIVE Sum(_, _, _, _, _, _)
(* sum of term, term*f(2), ...: term' = term * x^s / (product of the next s integers) *)
Sum(x, term, k, s, sign, n) == IF n = 0 THEN term
  ELSE XAdd(term, Sum(x, XMul(XInt(sign), XDiv(XMul(term, XPow(x, s)), IF s = 1 THEN XInt(k) ELSE XInt(k * (k + 1)))), k + s, s, sign, n - 1))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN XInt(1) ELSE XMul(XInt(n), Fact(n - 1))
Rem(x, n) == XMul(XInt(3), XDiv(XPow(XAbs(x), n), Fact(n)))     \* remainder after the terms below n, |x| <= 2 and n large
RemE(x, n) == XMul(XInt(9), Rem(x, n))
ExpS(x) == Sum(x, XInt(1), 1, 1, 1, 24)       \* terms 0..24
SinS(x) == Sum(x, x, 2, 2, -1, 12)            \* terms 1..25
CosS(x) == Sum(x, XInt(1), 1, 2, -1, 12)
ShS(x)  == Sum(x, x, 2, 2, 1, 12)
ChS(x)  == Sum(x, XInt(1), 1, 2, 1, 12)
Enc(v, e) == <<XSub(v, e), XAdd(v, e)>>
Series(fn, x) == CASE fn = "exp" -> Enc(ExpS(x), RemE(x, 25)) [] fn = "sin" -> Enc(SinS(x), Rem(x, 25)) [] fn = "cos" -> Enc(CosS(x), Rem(x, 25))
                   [] fn = "sinh" -> Enc(ShS(x), RemE(x, 25)) [] fn = "cosh" -> Enc(ChS(x), RemE(x, 25))
Quot(A, B) == \* B positive or negative, small radius
  LET c == {XDiv(a, b) : a \in {A[1], A[2]}, b \in {B[1], B[2]}} IN
  <<CHOOSE x \in c : \A y \in c : XLe(x, y), CHOOSE x \in c : \A y \in c : XLe(y, x)>>
Known(fn, x) == CASE fn \in {"exp", "sin", "cos", "sinh", "cosh"} -> Series(fn, x)
                  [] fn = "tan" -> Quot(Series("sin", x), Series("cos", x)) [] fn = "tanh" -> Quot(Series("sinh", x), Series("cosh", x))
Agree(fn, x) == \* the class agrees with an enclosure of fn(x)
  LET E == Known(fn, x) IN
  /\ XFnDef(fn, x)
  /\ E[1] = E[2] => XFnCmp(fn, x, E[1]) = 0
  /\ E[1] # E[2] => XFnCmp(fn, x, E[1]) > 0 /\ XFnCmp(fn, x, E[2]) < 0
  /\ \A v \in {XRat(n, 8) : n \in -24..24} : (XLt(E[2], v) => XFnCmp(fn, x, v) < 0) /\ (XLt(v, E[1]) => XFnCmp(fn, x, v) > 0)
Inverse == [log |-> "exp", asin |-> "sin", acos |-> "cos", atan |-> "tan", asinh |-> "sinh", acosh |-> "cosh", atanh |-> "tanh"]
Dom(fn, v) == CASE fn = "acos" -> XLt("0", v) /\ XLt(v, XInt(3)) [] fn \in {"asin", "atan"} -> XLt(XAbs(v), XRat(3, 2)) [] fn = "acosh" -> XLt("0", v) [] OTHER -> TRUE
Back(fn, v) == \* fn(y) against v, y a number a little below / above Inverse[fn](v)
  LET E == Known(Inverse[fn], v) s == IF fn = "acos" THEN -1 ELSE 1 d == XShl(XInt(1), -30) lo == XSub(E[1], d) up == XAdd(E[2], d) IN
  Dom(fn, v) => /\ XFnDef(fn, lo) => XFnCmp(fn, lo, v) = -s
                /\ XFnDef(fn, up) => XFnCmp(fn, up, v) = s
RoundFn(fn, x) == \A f \in {"f32", "f64", "m:4:-3:2", "m:8:-10:4"} :
  LET d == XFnRound(fn, f, "D", x) u == XFnRound(fn, f, "U", x) IN
  /\ XRound(f, "D", d) = d /\ XRound(f, "U", u) = u
  /\ XIsFin(d) => XFnCmp(fn, x, d) >= 0
  /\ XIsFin(u) => XFnCmp(fn, x, u) <= 0
  /\ d = u \/ XNextUp(f, d) = u
(* small arguments, where the class uses the first terms of the series *)
BackTiny(fn, v) ==
  LET E == Known(Inverse[fn], v) s == IF fn = "acos" THEN -1 ELSE 1 d == XShl(XInt(1), -400) lo == XSub(E[1], d) up == XAdd(E[2], d) IN
  (fn \in {"acos", "acosh"} => XLt("0", v)) =>
    /\ XFnDef(fn, lo) => XFnCmp(fn, lo, v) = -s
    /\ XFnDef(fn, up) => XFnCmp(fn, up, v) = s
RoundTiny(fn, x) == \A f \in {"f32", "f64", "f80"} :
  LET d == XFnRound(fn, f, "D", x) u == XFnRound(fn, f, "U", x) IN
  /\ XRound(f, "D", d) = d /\ XRound(f, "U", u) = u
  /\ XFnCmp(fn, x, d) >= 0 /\ XFnCmp(fn, x, u) <= 0
  /\ d = u \/ XNextUp(f, d) = u
Fwd == {"exp", "sin", "cos", "tan", "sinh", "cosh", "tanh"}
Special ==
  /\ XFnCmp("exp", "0", XInt(1)) = 0 /\ XFnCmp("log", XInt(1), "0") = 0 /\ XFnCmp("exp", "-oo", "0") = 0 /\ XFnRound("exp", "f64", "U", "+oo") = "+oo"
  /\ XFnRound("log", "f64", "D", "0") = "-oo" /\ ~XFnDef("log", XInt(-1)) /\ ~XFnDef("asin", XRat(5, 4)) /\ ~XFnDef("acosh", XRat(1, 2))
  /\ XFnRound("atan", "f64", "U", "+oo") = XPiRound("f64", "U", XRat(1, 2)) /\ XFnRound("acos", "f64", "D", XInt(-1)) = XPiRound("f64", "D", XInt(1))
  /\ XFnRound("atanh", "f64", "D", XInt(1)) \in {"+oo", XMaxFin("f64")} /\ XFnCmp("acosh", XInt(1), "0") = 0 /\ XFnRound("tanh", "f64", "U", "+oo") = XInt(1)

TinyExp == {12, 20, 30, 38, 39, 40, 41, 42, 43, 44, 52, 60, 63, 70}
Tests == {<<"arith", r, s>> : r \in Rat, s \in Few} \union {<<"ext", r>> : r \in Few} \union {<<"hw">>, <<"special">>}
  \union {<<"round", g, r>> : g \in Formats, r \in Rat \union {<<n, 16>> : n \in -400..400} \union {<<n, 7>> : n \in -120..120}}
  \union {<<"step", g, u>> : g \in Formats, u \in -60..60} \union {<<"root", g, r, k>> : g \in {<<2, -1, 1>>, <<3, -2, 1>>}, r \in Rat \union {<<n, 16>> : n \in 0..200}, k \in {2, 3}}
  \union {<<"pi", <<n, d>>, k>> : n \in -60..60, d \in {1, 2, 3}, k \in {1, 2, 4}}
  \union {<<"fwd", fn, <<n, d>>>> : fn \in Fwd, n \in -6..6, d \in {3, 4, 5}} \union {<<"back", fn, <<n, d>>>> : fn \in DOMAIN Inverse, n \in -6..6, d \in {3, 4, 5}}
  \union {<<"tinyf", fn, n, j>> : fn \in Fwd, n \in {-5, -1, 1, 7}, j \in TinyExp} \union {<<"tinyb", fn, n, j>> : fn \in DOMAIN Inverse, n \in {-5, -1, 1, 7}, j \in TinyExp}
Init == t \in Tests
Spec == Init /\ [][UNCHANGED t]_t
Correct == CASE t[1] = "arith" -> Arith(t[2], t[3]) [] t[1] = "ext" -> Ext(t[2]) [] t[1] = "hw" -> Hardware [] t[1] = "special" -> Special
             [] t[1] = "round" -> Round(t[2], t[3]) [] t[1] = "step" -> Step(t[2], t[3]) [] t[1] = "root" -> Root(t[2], t[3], t[4])
             [] t[1] = "pi" -> PiFloor(t[2], t[3])
             [] t[1] = "fwd" -> Agree(t[2], Q(t[3])) /\ RoundFn(t[2], Q(t[3]))
             [] t[1] = "tinyf" -> LET x == XShl(XInt(t[3]), -t[4]) IN Agree(t[2], x) /\ RoundTiny(t[2], x)
             [] t[1] = "tinyb" -> LET x == XShl(XInt(t[3]), -t[4]) IN BackTiny(t[2], x) /\ (XFnDef(t[2], x) /\ t[2] \notin {"acosh", "log"} => RoundTiny(t[2], x))
                                      /\ (t[2] \in {"acosh", "log"} => (XFnDef(t[2], XAdd(XInt(1), x)) => RoundTiny(t[2], XAdd(XInt(1), x))))
             [] t[1] = "back" -> Back(t[2], Q(t[3])) /\ (XFnDef(t[2], Q(t[3])) => RoundFn(t[2], Q(t[3])))
=============================================================================
