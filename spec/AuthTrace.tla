----------------------------- MODULE AuthTrace -----------------------------
(* trace: [w (index into the worlds), prog, ev: Seq of [cred [ok, u, p, free], lo, hi, st, user, type, realm (values of WWW-Authenticate), by]] in order *)
EXTENDS Auth, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
Worlds == ndJsonDeserialize(IOEnv.WORLDS)
VARIABLES ti, i, ld
T == Traces[ti]
W == Worlds[T.w]
E == T.ev[i]
Challenge(r) == <<66, 97, 115, 105, 99, 32, 114, 101, 97, 108, 109, 61, 34>> \o r \o <<34>>
Fits(o) == \/ /\ o.status = 403 /\ E.st \in {401, 403}            \* a refusal of a known user
              /\ E.by = 0
           \/ /\ o.status = 401 /\ E.st = 401 /\ E.by = 0 /\ E.realm = <<Challenge(o.realm)>> /\ E.user = o.user
           \/ /\ o.status = 200 /\ E.st = 200 /\ E.by = o.by /\ E.user = o.user /\ E.type = o.type
Init == ti \in 1..Len(Traces) /\ i = 1 /\ ld = [n \in 1..Len(Worlds[Traces[ti].w].acts) |-> 1]
Next == /\ i <= Len(T.ev)
        /\ \E o \in Outcomes(T.prog, W, [cred |-> E.cred, lo |-> E.lo, hi |-> E.hi], ld) : Fits(o) /\ ld' = o.ld
        /\ i' = i + 1 /\ ti' = ti
Spec == Init /\ [][Next]_<<ti, i, ld>>
Acc == (i = Len(T.ev) + 1) => PrintT(<<"ACC", ti>>)
=============================================================================
