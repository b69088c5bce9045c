------------------------------ MODULE UrlTrace ------------------------------
(* observations: [k |-> "path", t, path, query, raw]                 echoed by a plain response
                 [k |-> "file", t, cfg (index), st, id, loc, pi]      served by the static pipeline  *)
EXTENDS Url, TLC, Json, IOUtils
World == ndJsonDeserialize(IOEnv.WORLD)[1]
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, done
T == Traces[ti]
OkPath == /\ T.path = Path(T.t) /\ T.query = Query(T.t)
          /\ T.raw = RawPath(T.t) \o (LET u == NoFrag(T.t) IN IF Find(u, 63) = 0 THEN <<>> ELSE <<63>> \o Query(T.t))
OkFile == LET c == World.cfgs[T.cfg] r == Resolve(World.fs, c, T.t) IN
          /\ T.st = r.st
          /\ r.st = 200 => T.id = r.id
          /\ r.st = 301 => Decode(T.loc) = r.s.up \o <<Slash>> /\ T.locq = Query(T.t)
          /\ (r.st = 200 /\ c.pathinfo) => T.pi = r.s.pi
Ok == IF T.k = "path" THEN OkPath ELSE OkFile
Init == ti \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ Ok /\ done' = TRUE /\ ti' = ti
Spec == Init /\ [][Next]_<<ti, done>>
Acc == done => PrintT(<<"ACC", ti>>)
=============================================================================
