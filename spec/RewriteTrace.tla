---------------------------- MODULE RewriteTrace ----------------------------
(* observation: [prog, rq [t, host, hdr, origin], st, loc, path, query, raw, marks] *)
EXTENDS Rewrite, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES ti, done
T == Traces[ti]
Ok == LET r == RunRw(Progs[T.prog], T.rq) IN
      IF r.status = 500 THEN T.st = 0 \/ T.st >= 500      \* no answer, or an error
      ELSE /\ T.st = (IF r.status = 0 THEN 200 ELSE r.status)
           /\ LocOk(T.rq, r, T.loc) /\ r.path = T.path /\ r.query = T.query /\ r.raw = T.raw /\ r.marks = T.marks
           /\ Normal(r.path)
Init == ti \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ Ok /\ done' = TRUE /\ ti' = ti
Spec == Init /\ [][Next]_<<ti, done>>
Acc == done => PrintT(<<"ACC", ti>>)
=============================================================================
