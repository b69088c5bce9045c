----------------------------- MODULE PoolTrace -----------------------------
(* trace: [n requests "1".."n", ev].  Events seen at the clients and at the backend, in one order:
   send r; arrive r ok con; answer r; break r; resp r st own; eof r; abort r; closed r; listen x; calm; extra; quiet; final open *)
EXTENDS Pool, Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, ab, used
T == Traces[ti]
E == T.ev[i]
TInit == /\ ti \in 1..Len(Traces) /\ i = 1 /\ ab = {} /\ used = {}
         /\ rs = [r \in 1..Traces[ti].n |-> "new"] /\ cause = {} /\ pend = 0 /\ idle = 0 /\ lst = "up" /\ bad = FALSE
Step == i' = i + 1 /\ UNCHANGED ti
Ev(op) == i <= Len(T.ev) /\ E.op = op /\ Step
Keep == UNCHANGED vars
\* an aborted request may still be passed on until the server notices; its connection is closed then
LateArrive(r) == r \in ab /\ rs[r] \in {"wait", "con", "end", "gone"} /\ r \notin used
Vis ==
  \/ Ev("send") /\ Send(E.r) /\ UNCHANGED <<ab, used>>
  \/ Ev("arrive") /\ E.ok /\ E.r \notin used /\ used' = used \cup {E.r} /\ UNCHANGED ab
        /\ (\/ E.r \notin ab /\ Arrive(E.r)
            \/ LateArrive(E.r) /\ rs' = [rs EXCEPT ![E.r] = "gone"] /\ UNCHANGED <<cause, pend, idle, lst, bad>>)
  \/ Ev("answer") /\ Answer(E.r) /\ UNCHANGED <<ab, used>>
  \/ Ev("break") /\ Break(E.r) /\ UNCHANGED <<ab, used>>
  \/ Ev("resp") /\ UNCHANGED <<ab, used>> /\ E.r \notin ab
        /\ ((E.st = 200 /\ E.own /\ Good(E.r)) \/ (E.st \in 500..599 /\ Error(E.r)))
  \/ Ev("eof") /\ Error(E.r) /\ UNCHANGED <<ab, used>>
  \/ Ev("abort") /\ ab' = ab \cup {E.r} /\ (Abort(E.r) \/ (rs[E.r] \in {"done", "end"} /\ Keep)) /\ UNCHANGED used
  \/ Ev("closed") /\ UNCHANGED <<ab, used>> /\ Closed(E.r)
  \/ Ev("listen") /\ Listen(E.x) /\ UNCHANGED <<ab, used>>
  \/ Ev("calm") /\ (Calm \/ (~bad /\ Keep)) /\ UNCHANGED <<ab, used>>
  \/ Ev("quiet") /\ Keep /\ UNCHANGED <<ab, used>>
        /\ \A r \in DOMAIN rs : rs[r] \in {"new", "arr", "done", "end"} \/ (rs[r] = "gone" /\ r \notin used)
  \/ Ev("final") /\ E.open = 0 /\ E.fds <= 0 /\ Keep /\ UNCHANGED <<ab, used>>
\* connections are opened only on demand: hidden steps only when something waits or a connect is under way
Hid == Hidden /\ UNCHANGED <<ti, i, ab, used>> /\ i <= Len(T.ev)
TNext == Vis \/ Hid
Spec == TInit /\ [][TNext]_<<vars, ti, i, ab, used>>
Acc == (i = Len(T.ev) + 1) => PrintT(<<"ACC", ti>>)
=============================================================================
