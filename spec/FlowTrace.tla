----------------------------- MODULE FlowTrace -----------------------------
(* trace: [L, R, slack, ev]; events, all numbers in bytes:
     start base        memory of the worker before anything
     quiet             nothing moves: sent by the sender, kb waiting in front of the server, kc waiting behind it, got by the receiver
     rss v n           memory of the worker while n connections like this one are stuck
     cpu ms            processor time per second while nothing moves
     end got want same everything the sender sent arrived
     gone              the receiver left: the server dropped the sender too                                                         *)
EXTENDS Flow, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, sent, got
vars == <<ti, i, sent, got>>
T == Traces[ti]
E == T.ev[i]
Init == ti \in 1..Len(Traces) /\ i = 1 /\ sent = 0 /\ got = 0
Adv == i' = i + 1 /\ ti' = ti
HeldNow == E.sent - E.kb - E.kc - E.got
Quiet == /\ E.o = "quiet" /\ E.sent >= sent /\ E.got >= got
         /\ MayHold(HeldNow, T.L, T.R, T.slack)
         /\ MustHold(HeldNow, E.kb, T.L, T.slack)
         /\ sent' = E.sent /\ got' = E.got /\ Adv
Rss == E.o = "rss" /\ (T.L > 0 => E.v <= E.base + E.n * (2 * (T.L + T.R) + T.slack) + E.extra) /\ UNCHANGED <<sent, got>> /\ Adv
Idle == E.o = "cpu" /\ E.ms <= 300 /\ UNCHANGED <<sent, got>> /\ Adv
Done == E.o = "end" /\ E.same /\ UNCHANGED <<sent, got>> /\ Adv
Gone == E.o = "gone" /\ E.ms <= 5000 /\ UNCHANGED <<sent, got>> /\ Adv
Next == i <= Len(T.ev) /\ (Quiet \/ Rss \/ Idle \/ Done \/ Gone)
Spec == Init /\ [][Next]_vars
Acc == i = Len(T.ev) + 1 => PrintT(<<"ACC", ti>>)
=============================================================================
