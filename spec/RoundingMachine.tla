-------------------------- MODULE RoundingMachine --------------------------
(* The ambient rounding mode, and the rounding objects that save it, change  *)
(* it and restore it.  A rounding object of policy "std" leaves the mode as  *)
(* it is and every primitive sets the mode it needs; one of policy "opp"     *)
(* rounds upward all the time, and its primitives come back to that; "nop"   *)
(* is an object of a policy that saves nothing.  A protected operation makes *)
(* and destroys an object of its own.  An unprotected operation runs under   *)
(* the innermost live object; when it is cut short by an exception the mode  *)
(* is unknown, and if it is not the one the object relies on nothing more is *)
(* computed under that object until it dies (the harness skips those).       *)
EXTENDS Naturals, Sequences
CONSTANT MaxLive
VARIABLES mode, live, ambient
rvars == <<mode, live, ambient>>
Modes == {"N", "D", "U", "Z"}
Pols  == {"std", "opp", "nop"}
Top   == live[Len(live)]
RInit == mode \in Modes /\ live = <<>> /\ ambient = mode

SetMode(m) == /\ live = <<>> /\ mode' = m /\ ambient' = m /\ UNCHANGED live
Enter(p) ==   /\ Len(live) < MaxLive
              /\ live' = Append(live, [pol |-> p, saved |-> mode, dirty |-> FALSE])
              /\ mode' = IF p = "opp" THEN "U" ELSE mode
              /\ UNCHANGED ambient
Leave ==      /\ live # <<>>
              /\ live' = SubSeq(live, 1, Len(live) - 1)
              /\ mode' = IF Top.pol = "nop" THEN mode ELSE Top.saved
              /\ UNCHANGED ambient
Protected(failed) == UNCHANGED rvars
Unprotected(failed) ==
              /\ live # <<>> /\ Top.pol # "nop" /\ ~Top.dirty
              /\ IF Top.pol = "opp" /\ ~failed
                 THEN mode' = "U" /\ UNCHANGED live
                 ELSE mode' \in Modes /\ live' = [live EXCEPT ![Len(live)].dirty = (Top.pol = "opp" /\ mode' # "U")]
              /\ UNCHANGED ambient
RNext == \/ \E m \in Modes : SetMode(m)
         \/ \E p \in Pols : Enter(p)
         \/ Leave
         \/ \E b \in BOOLEAN : Protected(b) \/ Unprotected(b)
RSpec == RInit /\ [][RNext]_rvars

TypeOK   == mode \in Modes /\ ambient \in Modes /\ Len(live) <= MaxLive
(* the mode the user chose is back when the last object has died *)
Restored == live = <<>> => mode = ambient
Bottom   == live # <<>> => live[1].saved = ambient
(* under a live "opp" object the mode is upward, except after a failure *)
Upward   == (live # <<>> /\ Top.pol = "opp" /\ ~Top.dirty) => mode = "U"
(* protected operations are invisible *)
Invisible == [][\A b \in BOOLEAN : Protected(b) => UNCHANGED rvars]_rvars
=============================================================================
