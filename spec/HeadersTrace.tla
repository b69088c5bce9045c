---------------------------- MODULE HeadersTrace ----------------------------
(* record: [rq, path, epath, query, p1, back, p2, kind, orq, oenv, ors, ok]: the request's own headers, statements before the request is handled, headers of
   the backend's answer, statements after it; what the backend saw (orq: headers, oenv: environment) and what the client got (ors) *)
EXTENDS Headers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ti
T == Traces[ti]
Lines(l) == [i \in 1..Len(l) |-> [n |-> l[i].n, k |-> l[i].k, v |-> Fold(l[i].v)]]
S0(t) == [rq |-> Lines(t.rq), rs |-> <<>>, env |-> <<>>, path |-> t.path, epath |-> t.epath, query |-> t.query]
Seen(l) == [i \in 1..Len(l) |-> [n |-> l[i].n, v |-> Trim(l[i].v)]]
Pairs(f) == {<<x, f[x]>> : x \in DOMAIN f}
Verdict(t) == LET a == Run(S0(t), t.p1, 1)
                  b == IF t.kind = "respond" THEN a ELSE [a EXCEPT !.rs = @ \o Lines(t.back)]
                  z == Run(b, t.p2, 1)
              IN /\ t.ok
                 /\ Seen(t.ors) = Seen(z.rs)
                 /\ (t.kind = "proxy" => Seen(t.orq) = Seen(a.rq))
                 /\ (t.kind \in {"scgi", "fcgi"} => {<<p[1], p[2]>> : p \in {t.oenv[i] : i \in 1..Len(t.oenv)}} = Pairs(a.env))
Init == ti \in 1..Len(Traces)
Next == FALSE /\ ti' = ti
Spec == Init /\ [][Next]_ti
Acc == Verdict(T) => PrintT(<<"ACC", ti>>)
=============================================================================
