------------------------------ MODULE Conform ------------------------------
(* Validation of steps recorded from the real code.  Every record is one     *)
(* completed call: operation, operands, outcome.  The behaviour of this      *)
(* module walks over all the records (Chains of them in parallel) and the    *)
(* invariant Conforms demands that the step is one IntervalSpec allows, for  *)
(* the property named by the parameter "prop".                               *)
EXTENDS Api, Records, TLC

Prop == Param("prop")
Recs == LoadRecords
N    == Len(Recs)
Chains == 256
VARIABLE i
Init == i \in 1..(IF N < Chains THEN N ELSE Chains)
Next == i + Chains <= N /\ i' = i + Chains
Spec == Init /\ [][Next]_i

-----------------------------------------------------------------------------
Ok(r) == CASE Prop = "C01" -> OkC01(r)
           [] Prop = "C02" -> OkC02(r)
           [] Prop = "C03" -> OkC03(r)
           [] Prop = "C04" -> OkC04(r)
           [] Prop = "C05" -> OkC05(r)
           [] Prop = "C21" -> OkC21(r)
           [] Prop \in {"C09", "C10", "C11"} -> OkCmp(r)
           [] Prop = "C12" -> OkC12(r)
           [] Prop = "C13" -> OkC13(r)
           [] Prop \in {"C18", "C19"} -> OkC18(r)
           [] Prop = "C14" -> OkC14(r)
           [] Prop = "C17" -> OkC17(r)
           [] Prop = "C15" -> OkC15(r)
           [] Prop = "C16" -> OkC16(r)
           [] Prop = "C24" -> OkC24(r)
           [] Prop = "C20" -> OkC20(r)
           [] Prop = "C25" -> OkC25(r)
           [] Prop = "C23" -> OkC23(r)
           [] Prop = "C06" -> OkC06(r)
           [] Prop = "C07" -> OkC07(r)
           [] Prop = "C08" -> OkC08(r)
Conforms == Total([k \in {0} |-> Ok(Recs[i])]) \/ Report("bad", i, Recs[i])
=============================================================================
