---------------------------- MODULE ConfigTrace ----------------------------
(* observation: [prog (index into the program file), rq (request), st, body, hdr (X-T values in order), tag] *)
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES ti, done
T == Traces[ti]
Ok == LET r == Run(Progs[T.prog], T.rq) IN /\ r.handled /\ r.status = T.st /\ r.body = T.body /\ r.hdr = T.hdr /\ r.tag = T.tag
Init == ti \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ Ok /\ done' = TRUE /\ ti' = ti
Spec == Init /\ [][Next]_<<ti, done>>
Acc == done => PrintT(<<"ACC", ti>>)
=============================================================================
