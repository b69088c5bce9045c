----------------------------- MODULE VhostTrace -----------------------------
(* observation of a redirect to a directory: [dir TRUE, rq, st, loc (without scheme and host)]: the same resource, with a slash.
   other observations: [dir FALSE, prog, rq [h, t], st, dr, ph, path, tags]; PROGS: the programs; WORLD: [dirs, users] *)
EXTENDS Vhost, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Progs == ndJsonDeserialize(IOEnv.PROGS)
World == ndJsonDeserialize(IOEnv.WORLD)[1]
VARIABLES ti, done
T == Traces[ti]
DirOk == T.st = 301 /\ T.loc # <<>> /\ Path(T.loc) = Path(T.rq.t) \o <<Slash>> /\ Query(T.loc) = Query(T.rq.t)
Ok == IF T.dir THEN DirOk ELSE LET r == RunV(World, Progs[T.prog], T.rq) IN
      \/ r.wild
      \/ r.status = 400 /\ T.st = 400
      \/ /\ r.status # 400 /\ T.st = (IF r.status = 0 THEN 200 ELSE r.status) /\ T.path = r.path /\ T.tags = r.tags
         /\ \/ r.status # 0
            \/ Same(T.dr, r.dr) /\ Same(T.ph, r.ph)
            \/ r.free /\ Same(T.ph, T.dr \o SubSeq(r.ph, Len(r.dr) + 1, Len(r.ph)))
Init == ti \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ Ok /\ done' = TRUE /\ ti' = ti
Spec == Init /\ [][Next]_<<ti, done>>
Acc == done => PrintT(<<"ACC", ti>>)
=============================================================================
