------------------------------ MODULE Records ------------------------------
(* Steps recorded from the real code.  LoadRecords reads the file named by   *)
(* the JVM property "verif.rec"; each line "op.form|fmt|chk|tag|in|out"      *)
(* becomes a record of strings and tuples.  Report writes a line to the file *)
(* named by "verif.out".  An outcome the library must not return may not even *)
(* have a place in the specification's operators (a bound that is not a       *)
(* number): Total makes such a step not allowed.  All of them are Java        *)
(* overrides (java/Records.java).                                             *)
NoRecord == [op |-> "", form |-> "", fmt |-> "", chk |-> "", tag |-> "", in |-> <<>>, out |-> <<>>]
LoadRecords   == <<NoRecord>>
LoadSessions  == <<<<NoRecord>>>>
Report(kind, i, what) == TRUE
Param(name)   == ""
EmitStep(s)   == TRUE
Total(f)      == f[0]         \* FALSE if f[0] has no value
=============================================================================
