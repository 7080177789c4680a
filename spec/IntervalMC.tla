----------------------------- MODULE IntervalMC -----------------------------
(* The machine over a tiny format, every operation giving its tightest        *)
(* outcome: no history of the specification itself loses a number.            *)
EXTENDS IntervalMachine
CONSTANTS F, Bits
Vals == LET RECURSIVE up(_) up(v) == IF v = "+oo" THEN {v} ELSE {v} \union up(XNextUp(F, v)) IN up("-oo")
Ivs  == {Z \in Vals \X Vals : XLe(Z[1], Z[2]) /\ (Z[1] # Z[2] \/ XIsFin(Z[1]))}
Init == reg = [r \in Regs |-> <<Zero, Zero>>] /\ wit = [r \in Regs |-> Zero]
Load == \E d \in Regs, Z \in Ivs, how \in {"L", "U", "M"} : Set(d, Z, Fresh(how, Z))
Unary == {"neg", "inv", "square", "abs", "copy"}
Binary == {"add", "sub", "mul", "div", "min", "max", "hull", "intersect"}
ResultOf(op, as) == IF op = "copy" THEN as[1] ELSE Result(op, F, as)
Do == \/ \E d \in Regs, a \in Regs, op \in Unary : LET as == <<reg[a]>> IN
           ~IsE(reg[a]) /\ LET Z == ResultOf(op, as) IN Put(d, Z, Val(op, as, <<wit[a]>>, 0))
      \/ \E d \in Regs, a \in Regs, b \in Regs, op \in Binary : LET as == <<reg[a], reg[b]>> IN
           ~HasE(as) /\ LET Z == ResultOf(op, as) IN Put(d, Z, Val(op, as, <<wit[a], wit[b]>>, 0))
      \/ \E d \in Regs, a \in Regs, n \in {2, 3} : ~IsE(reg[a]) /\ Put(d, Outward(F, SPow(reg[a], n)), Val("pow", <<reg[a]>>, <<wit[a]>>, n))
Next == Load \/ Do
Spec == Init /\ [][Next]_ivars
Small == \A r \in Regs : wit[r] = None \/ XBits(wit[r]) <= Bits
=============================================================================
