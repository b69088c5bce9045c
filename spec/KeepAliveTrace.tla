--------------------------- MODULE KeepAliveTrace ---------------------------
(* trace: [io, ev]; every event has t0 <= t1 *)
EXTENDS KeepAlive, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, s, rest
vars == <<ti, i, s, rest>>
T == Traces[ti]
E == T.ev[i]
Live == i <= Len(T.ev)
Init == ti \in 1..Len(Traces) /\ i = 2 /\ rest = "none" /\ s = Start(Traces[ti].ev[1].t0, Traces[ti].ev[1].t1)
Adv == i' = i + 1 /\ ti' = ti
(* the connection was shut before the server could see this *)
Gone == s.ph # "shut" /\ E.o \in {"in", "req", "fill", "take"} /\ MayShut(s, T.io, E.t1) /\ s' = Down(s) /\ UNCHANGED <<ti, i, rest>>
Lost == s.ph = "shut" /\ E.o \in {"in", "req", "fill", "take"} /\ s' = s /\ rest' = rest /\ Adv
OkAt(t) == MayLive(s, T.io, t)
In == E.o = "in" /\ s.ph \in {"fresh", "head", "body", "idle"} /\ OkAt(E.t0) /\ s' = Input(s, E.ph, E.t0, E.t1) /\ Adv /\ UNCHANGED rest
Req == E.o = "req" /\ s.ph \in {"fresh", "head", "body", "idle"} /\ OkAt(E.t0) /\ s' = Requests(s, E.qs, E.rest, E.t0, E.t1) /\ rest' = E.rest /\ Adv
Fill == E.o = "fill" /\ s.ph = "busy" /\ s' = Input(s, E.ph, E.t0, E.t1) /\ Adv /\ UNCHANGED rest
Take == E.o = "take" /\ s.ph \in {"flow", "out"} /\ OkAt(E.t0) /\ s' = Input(s, s.ph, E.t0, E.t1) /\ Adv /\ UNCHANGED rest
Answer == E.o = "answer" /\ s.ph \in {"busy", "flow", "out"} /\ (s.ph = "busy" \/ OkAt(E.t0)) /\ s.pend # <<>>
          /\ E.ann = Announced(s, E.cf)
          /\ s' = AfterAnswer(s, E.cf, rest, E.t0, E.t1) /\ rest' = (IF Len(s.pend) = 1 THEN "none" ELSE rest) /\ Adv
Open == E.o = "open" /\ s.ph \notin {"flow", "out"} /\ OkAt(E.t0) /\ Adv /\ UNCHANGED <<s, rest>>
Eof == E.o = "eof" /\ MayShut(s, T.io, E.t1) /\ s' = Down(s) /\ Adv /\ UNCHANGED rest
Next == Live /\ (Gone \/ Lost \/ In \/ Req \/ Fill \/ Take \/ Answer \/ Open \/ Eof)
Spec == Init /\ [][Next]_vars
Acc == i = Len(T.ev) + 1 => PrintT(<<"ACC", ti>>)
=============================================================================
