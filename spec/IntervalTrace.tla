--------------------------- MODULE IntervalTrace ---------------------------
(* Programs run by the real code, checked to be behaviours of IntervalMachine *)
(* whose every outcome the interface allows.  An event carries the target and *)
(* source variables, a small integer, the operands as the real code saw them  *)
(* and the outcome.                                                           *)
EXTENDS IntervalMachine, Records, TLC
S == LoadSessions
VARIABLES s, k
tvars == <<reg, wit, s, k>>
TInit == /\ s \in DOMAIN S /\ k = 1 /\ S[s][1].op = "start"
         /\ reg = [r \in Regs |-> <<Zero, Zero>>] /\ wit = [r \in Regs |-> Zero]
Args(e) == SubSeq(e.in, 5, Len(e.in))
Src(e, j) == e.in[1 + j]                    \* source variable of operand j
IsNumber(a) == Len(a) = 1
(* operands are what the variables hold *)
Match(e) == \A j \in DOMAIN Args(e) : IsNumber(Args(e)[j]) \/ e.form \in {"v", "a"} \/ Args(e)[j] = reg[Src(e, j)]
Wits(e) == [j \in DOMAIN Args(e) |-> IF IsNumber(Args(e)[j]) THEN Args(e)[j][1] ELSE IF e.form \in {"v", "a"} THEN None ELSE wit[Src(e, j)]]
Call(e) == [e EXCEPT !.in = IF e.op \in {"pow", "root"} THEN Append(Args(e), e.in[4]) ELSE Args(e)]
HardFn(e) == ~Soft(e.fmt) /\ e.op \in Fns1
NewZ(e) == CASE e.out[1] = "I" -> e.out[2] [] e.out[1] = "E" -> Empty [] e.out[1] = "P" -> IF e.form = "1" THEN e.out[2] ELSE e.out[3]
Stored(e) == e.in[1] # 0
NewW(e) == LET v == Val(e.op, Norms(Args(e)), Wits(e), e.in[4]) IN
  IF e.op = "bisect" THEN (IF wit[e.in[2]] # None /\ Member(wit[e.in[2]], NewZ(e)) THEN wit[e.in[2]] ELSE None) ELSE v
Good(e) == CASE e.op = "start" -> FALSE
             [] e.op = "regs" -> \A r \in Regs : e.in[r] = reg[r]
             [] e.op = "load" -> e.out = MkIv(e.chk, e.in[5])
             [] OTHER -> /\ Match(e) /\ Allowed(Call(e))
                         /\ e.out[1] = "X" => e.out[2] \in {"empty", "nan", "cmp"}
                         /\ (Stored(e) /\ e.out[1] # "X") => IsE(NewZ(e)) \/ Inhabited(NewZ(e)) \/ HardFn(e)
                         /\ (Stored(e) /\ e.out[1] # "X" /\ e.op \in Valued /\ NewW(e) # None) => Member(NewW(e), NewZ(e))
Step(e) == IF e.op = "regs" \/ ~Stored(e) \/ e.out[1] = "X" THEN UNCHANGED ivars
           ELSE IF e.op = "load" THEN Set(e.in[1], NewZ(e), Fresh(e.tag, NewZ(e)))
           ELSE LET w == NewW(e) IN Set(e.in[1], NewZ(e), IF w # None /\ XBits(w) < 4000 THEN w ELSE Fresh(e.tag, NewZ(e)))
Stop == k' = Len(S[s]) /\ reg' = [r \in Regs |-> <<Zero, Zero>>] /\ wit' = [r \in Regs |-> Zero]
TNext == /\ k < Len(S[s]) /\ UNCHANGED s
         /\ LET e == S[s][k + 1] IN
            IF ~Total([z \in {0} |-> Good(e)]) THEN Report("bad", <<s, k + 1>>, e) /\ Stop
            ELSE IF HardFn(e) /\ e.out[1] = "I" /\ ~Inhabited(e.out[2]) THEN Report("cut", <<s, k + 1>>, Len(S[s]) - k) /\ Stop   \* the C library's inaccuracy
            ELSE Step(e) /\ k' = k + 1
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
