---------------------------- MODULE LimitTrace ----------------------------
(* trace: [prog, ev]; events: [op "start", reqs: Seq of [r, ip, res, at, marks], lo, hi] (all at the same time, any order), [op "end", r] *)
EXTENDS Limit, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, todo, s
T == Traces[ti]
E == T.ev[i]
Init == ti \in 1..Len(Traces) /\ i = 1 /\ todo = {} /\ s = Empty
Begin == /\ todo = {} /\ i <= Len(T.ev) /\ E.op = "start" /\ todo' = 1..Len(E.reqs) /\ UNCHANGED <<ti, i, s>>
One == \E k \in todo : LET q == E.reqs[k] IN
         \E x \in Start(s, T.prog, q.r, q.ip, E.lo, E.hi) :
            /\ x.res = q.res /\ x.at = q.at /\ x.marks = q.marks
            /\ s' = x.s /\ todo' = todo \ {k} /\ i' = (IF todo = {k} THEN i + 1 ELSE i) /\ ti' = ti
Fin == /\ todo = {} /\ i <= Len(T.ev) /\ E.op = "end" /\ E.r \in DOMAIN s.held /\ s' = End(s, E.r) /\ i' = i + 1 /\ UNCHANGED <<ti, todo>>
Next == (todo = {} /\ (Begin \/ Fin)) \/ (todo # {} /\ One)
Spec == Init /\ [][Next]_<<ti, i, todo, s>>
Acc == (i = Len(T.ev) + 1 /\ todo = {}) => PrintT(<<"ACC", ti>>)
=============================================================================
