------------------------------- MODULE FlowMC -------------------------------
(* S queues in a row, event driven: the read event is switched off when the limit is reached, and on again by a notification *)
EXTENDS Flow, TLC
CONSTANTS P, H, L, R, S, KB, KC, Bug
VARIABLES src, kb, q, kc, got, paused, armed, closed, lim
vars == <<src, kb, q, kc, got, paused, armed, closed, lim>>
(* the limit is known to the last queue first and spreads to the queues before it once the response head is complete *)
Init == /\ src = P /\ kb = 0 /\ q = [i \in 1..S |-> 0] /\ kc = 0 /\ got = 0 /\ paused \in BOOLEAN /\ armed = TRUE /\ closed = FALSE /\ lim = {S}
Used(qq) == LET f[i \in 0..S] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF i \in lim THEN qq[i] ELSE 0) IN f[S]
Held == LET f[i \in 0..S] == IF i = 0 THEN 0 ELSE f[i - 1] + q[i] IN f[S]
Min(a, b) == IF a < b THEN a ELSE b
(* the response head has H bytes *)
HeadDone == q[1] >= H \/ lim = 1..S
Locked(qq) == L > 0 /\ Used(qq) >= L
(* every change of the usage switches the event *)
Notify(old, new) == armed' = IF Locked(new) THEN FALSE
                             ELSE IF Locked(old) /\ Bug # "norearm" THEN TRUE ELSE armed
Spread == /\ HeadDone /\ lim # 1..S /\ Bug # "unlimited" /\ lim' = 1..S
          /\ UNCHANGED <<src, kb, q, kc, got, paused, closed>>
          /\ armed' = ~(L > 0 /\ Sum([i \in 1..S |-> q[i]]) >= L)
Send == src > 0 /\ kb < KB /\ src' = src - 1 /\ kb' = kb + 1 /\ UNCHANGED <<q, kc, got, paused, armed, closed, lim>>
Read == /\ armed /\ kb > 0 /\ ~closed /\ (HeadDone => lim = 1..S \/ Bug = "unlimited")
        /\ LET n == Min(R, kb) q2 == [q EXCEPT ![1] = @ + n]
           IN q' = q2 /\ kb' = kb - n /\ Notify(q, q2)
        /\ UNCHANGED <<src, kc, got, paused, closed, lim>>
Eof == armed /\ kb = 0 /\ src = 0 /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<src, kb, q, kc, got, paused, armed, lim>>
Move(i) == /\ q[i] > 0 /\ (i = 1 => HeadDone /\ (lim = 1..S \/ Bug = "unlimited"))
           /\ LET q2 == [q EXCEPT ![i] = 0, ![i + 1] = @ + q[i]] IN q' = q2 /\ Notify(q, q2)
           /\ UNCHANGED <<src, kb, kc, got, paused, closed, lim>>
Write == /\ q[S] > 0 /\ kc < KC
         /\ LET n == Min(KC - kc, q[S]) q2 == [q EXCEPT ![S] = @ - n] IN q' = q2 /\ kc' = kc + n /\ Notify(q, q2)
         /\ UNCHANGED <<src, kb, got, paused, closed, lim>>
Take == ~paused /\ kc > 0 /\ kc' = kc - 1 /\ got' = got + 1 /\ UNCHANGED <<src, kb, q, paused, armed, closed, lim>>
Pause == ~paused /\ got < P /\ paused' = TRUE /\ UNCHANGED <<src, kb, q, kc, got, armed, closed, lim>>
Resume == paused /\ paused' = FALSE /\ UNCHANGED <<src, kb, q, kc, got, armed, closed, lim>>
Server == Read \/ Eof \/ Spread \/ (\E i \in 1..S - 1 : Move(i)) \/ Write
Next == Send \/ Server \/ Take \/ Pause \/ Resume
Spec == Init /\ [][Next]_vars /\ WF_vars(Send) /\ WF_vars(Read) /\ WF_vars(Eof) /\ WF_vars(Spread) /\ (\A i \in 1..S - 1 : WF_vars(Move(i))) /\ WF_vars(Write)
        /\ SF_vars(Take) /\ WF_vars(Resume)
Conserve == src + kb + Held + kc + got = P
Bounded == MayHold(Held, IF L > 0 /\ H > L THEN H ELSE L, R, 0)
Quiet == ~ENABLED (Send \/ Server)
Working == Quiet => MustHold(Held, kb + src, L, 0)
Delivered == <>(got = P /\ closed)
Vac == ~(Quiet /\ paused /\ Held >= L /\ src > 0)
=============================================================================
