-------------------------- MODULE IntervalMachine --------------------------
(* A program over interval variables, and the same program over one real     *)
(* number for each of them.  reg[r] is the interval held by variable r;      *)
(* wit[r] is a number known to belong to what r stands for (None after an    *)
(* operation that has no value there).  An operation replaces the interval   *)
(* of its target by an outcome the interface allows, and the number by the   *)
(* exact value; a failed operation changes nothing.                          *)
EXTENDS Api
CONSTANT Regs
VARIABLES reg, wit
ivars == <<reg, wit>>
None == "none"

Valued == {"neg", "pos", "add", "sub", "mul", "div", "inv", "square", "abs", "min", "max", "pow", "hull", "intersect", "widen", "copy", "put"}
(* the operation on numbers; as: the intervals, ws: the numbers *)
Val(op, as, ws, n) ==
  IF \E k \in DOMAIN ws : ws[k] = None THEN None
  ELSE CASE op = "neg" -> XNeg(ws[1])
         [] op \in {"pos", "hull", "widen", "copy", "put"} -> ws[1]
         [] op = "add" -> XAdd(ws[1], ws[2])
         [] op = "sub" -> XSub(ws[1], ws[2])
         [] op = "mul" -> XMul(ws[1], ws[2])
         [] op = "div" -> IF ws[2] = Zero THEN None ELSE XDiv(ws[1], ws[2])
         [] op = "inv" -> IF ws[1] = Zero THEN None ELSE XDiv(One, ws[1])
         [] op = "square" -> XMul(ws[1], ws[1])
         [] op = "abs" -> XAbs(ws[1])
         [] op = "min" -> XMin(ws[1], ws[2])
         [] op = "max" -> XMax(ws[1], ws[2])
         [] op = "pow" -> IF n > 0 \/ (n = 0 /\ ws[1] # Zero) THEN XPow(ws[1], n) ELSE IF ws[1] = Zero THEN None ELSE XDiv(One, XPow(ws[1], -n))
         [] op = "intersect" -> IF Member(ws[1], as[1]) /\ Member(ws[1], as[2]) THEN ws[1] ELSE None
         [] OTHER -> None
(* some number of an interval *)
Fresh(how, Z) ==
  IF IsE(Z) THEN None
  ELSE IF how = "L" /\ XIsFin(Lo(Z)) THEN Lo(Z)
  ELSE IF how = "U" /\ XIsFin(Up(Z)) THEN Up(Z)
  ELSE IF Bounded(Z) THEN Mid(Z)
  ELSE IF XIsFin(Lo(Z)) THEN XAdd(Lo(Z), One) ELSE IF XIsFin(Up(Z)) THEN XSub(Up(Z), One) ELSE One
Put(d, Z, w) == reg' = [reg EXCEPT ![d] = Z] /\ wit' = [wit EXCEPT ![d] = w]
Set(d, Z, w) == WellFormed(Z) /\ Put(d, Z, w)
Sound == \A r \in Regs : WellFormed(reg[r]) /\ (wit[r] # None => Member(wit[r], reg[r]))
=============================================================================
