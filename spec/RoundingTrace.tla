--------------------------- MODULE RoundingTrace ---------------------------
(* Sessions recorded from the real code, checked to be behaviours of         *)
(* RoundingMachine.  Each event carries the mode observed after it (tag) and *)
(* for operations the outcome, which must be one Api allows.                 *)
EXTENDS RoundingMachine, Api, Records, TLC
S == LoadSessions
VARIABLES s, k
tvars == <<mode, live, ambient, s, k>>
TInit == /\ s \in DOMAIN S /\ k = 1 /\ S[s][1].op = "start"
         /\ mode = S[s][1].tag /\ ambient = mode /\ live = <<>>
Strip(e) == [e EXCEPT !.in = SubSeq(e.in, 1, Len(e.in) - 1)]   \* the last operand says P or U
Failed(e) == e.out[1] = "X"
Match(e) == /\ mode' = e.tag
            /\ CASE e.op = "setmode" -> SetMode(e.tag)
                 [] e.op = "enter" -> Enter(e.form)
                 [] e.op = "leave" -> Leave
                 [] e.fmt # "" -> /\ e.out = <<"X", "fault">> \/ Total([z \in {0} |-> Allowed(Strip(e))])
                                  /\ IF e.in[Len(e.in)] = "P" THEN Protected(Failed(e)) ELSE Unprotected(Failed(e))
TNext == /\ k < Len(S[s]) /\ UNCHANGED s
         /\ LET e == S[s][k + 1] IN
            IF ENABLED Match(e) THEN Match(e) /\ k' = k + 1
            ELSE /\ Report("bad", <<s, k + 1>>, e) /\ k' = Len(S[s]) /\ mode' = ambient /\ live' = <<>> /\ UNCHANGED ambient
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
