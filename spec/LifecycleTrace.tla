--------------------------- MODULE LifecycleTrace ---------------------------
(* What was seen of a real angel and its workers (or of one worker alone: solo), against Lifecycle: the steps of the angel and of
   the workers are not recorded, they may happen between the events; what clients and the process table show must fit.
   Events (t: milliseconds since the start):
     edit good          a new generation of the configuration is in place (generation 1 is there at the start)
     hup, kill, term    the signal is sent (kill: to one of the workers, SIGKILL)
     send k             request k is sent on a new connection;  again k j: on the idle connection of request j
     go k               the backend answers request k now (others are answered at once)
     resp k g ka        the complete answer to k: from generation g; ka: the connection is kept
     get g              a request of its own: sent and answered, from generation g, and nothing else happened meanwhile
     fail k             no (complete) answer: refused, or the connection ended
     hold k             a connection on which a request is begun and not finished, or the answer not read
     stall k            a connection that asks for much and reads nothing: when the server ends it does not show (reqs in T.st)
     off k              such a connection was ended by the server
     eof k              the idle connection of request k was ended by the server
     set w f            nothing has changed for a while: w workers, f descriptors in the angel
     gone rc            the angel (the solo worker) is gone, with that exit code, and so are all workers                 *)
EXTENDS Lifecycle, Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, m, g, gen, ph, pt, pk, rq, since, fds
tv == <<ti, m, g, gen, ph, pt, pk, rq, since, fds>>
T == Traces[ti]
E == T.ev[m]
Adv == m' = m + 1 /\ UNCHANGED ti
Now == IF m = 1 THEN 0 ELSE T.ev[m - 1].t
K == 1..T.reqs
(* a request is: 0 unknown, -1 under way and not yet accepted, i > 0 accepted by i, -300 - g lost by a kill, -3 over;
   -100 - i: its connection is idle in i; -200 - i: that connection has been lost by a kill *)
Stalled == {T.st[x]: x \in 1..Len(T.st)}
Mine(i) == {k \in K: rq[k] = i}
Idle(i) == {k \in K: rq[k] = -100 - i}
SUnch == UNCHANGED vars
TInit ==
  /\ ti \in 1..Len(Traces) /\ m = 1 /\ g = 1 /\ Init /\ conf = T.good
  /\ gen = [i \in I |-> 1] /\ ph = 0 /\ pt = FALSE /\ pk = 0 /\ rq = [k \in K |-> 0] /\ since = [i \in I |-> -1]
  /\ fds = 0
Gens == gen' = [i \in I |-> IF proc'[i] = "boot" /\ proc[i] # "boot" THEN g ELSE IF proc'[i] = "none" THEN 0 ELSE gen[i]]
Since == since' = [i \in I |-> IF proc'[i] = "stopping" THEN IF conns[i] = 0 THEN 0 ELSE IF since[i] < 0 THEN Now ELSE since[i] ELSE -1]
(* ---- hidden steps ---- *)
HUp == ph > 0 /\ ~term /\ Hup /\ ph' = 0 /\ Gens /\ UNCHANGED <<ti, m, g, pt, pk, rq, since, fds>>
HTerm == pt /\ Term /\ pt' = FALSE /\ ph' = 0 /\ UNCHANGED <<ti, m, g, gen, pk, rq, since, fds>>
HKill(i) == pk > 0 /\ Kill(i) /\ pk' = pk - 1 /\ Gens /\ Since
            /\ rq' = [k \in K |-> IF rq[k] = i THEN IF k \in Stalled THEN -3 ELSE -300 - gen[i] ELSE IF rq[k] = -100 - i THEN -200 - i ELSE rq[k]]
            /\ UNCHANGED <<ti, m, g, ph, pt, fds>>
HNo == pk > 0 /\ (\E i \in I: proc[i] = "stopping" \/ (proc[i] = "boot" /\ bad[i])) /\ pk' = pk - 1 /\ SUnch /\ UNCHANGED <<ti, m, g, gen, ph, pt, rq, since, fds>>
HOwn(i) == /\ (Exit(i) \/ Ready(i) \/ Up(i) \/ Notice(i)) /\ Gens /\ Since
           /\ (proc[i] = "stopping" => Mine(i) = {})
           /\ UNCHANGED <<ti, m, g, ph, pt, pk, rq, fds>>
HAcc(k, i) == rq[k] = -1 /\ Accept(i) /\ rq' = [rq EXCEPT ![k] = i] /\ UNCHANGED <<ti, m, g, gen, ph, pt, pk, since, fds>>
HCut(k) == /\ k \in Stalled /\ rq[k] > 0 /\ Cut(rq[k]) /\ rq' = [rq EXCEPT ![k] = -3]
           /\ UNCHANGED <<ti, m, g, gen, ph, pt, pk, since, fds>>
Hidden == (\E k \in K: HCut(k)) \/ HUp \/ HTerm \/ HNo \/ (\E i \in I: HKill(i) \/ HOwn(i) \/ \E k \in K: HAcc(k, i))
(* ---- events ---- *)
Sig == UNCHANGED <<since>>
EEdit == E.o = "edit" /\ conf' = E.good /\ g' = g + 1 /\ UNCHANGED <<made, dest, cur, proc, bad, inst, repl, term, hups, kills, conns, lost>> /\ fresh' = FALSE
         /\ UNCHANGED <<gen, ph, pt, pk, rq, since, fds>>
EHup == E.o = "hup" /\ ph' = 1 /\ SUnch /\ UNCHANGED <<g, gen, pt, pk, rq, since, fds>>
ETerm == E.o = "term" /\ pt' = TRUE /\ SUnch /\ UNCHANGED <<g, gen, ph, pk, rq, since, fds>>
EKill == E.o = "kill" /\ pk' = pk + 1 /\ SUnch /\ UNCHANGED <<g, gen, ph, pt, rq, since, fds>>
ESend == E.o \in {"send", "hold", "stall"} /\ rq[E.k] = 0 /\ rq' = [rq EXCEPT ![E.k] = -1] /\ SUnch /\ UNCHANGED <<g, gen, ph, pt, pk, since, fds>>
EAgain == E.o = "again" /\ rq[E.k] = 0 /\ rq[E.j] < -100 /\ LET i == IF rq[E.j] < -200 THEN -200 - rq[E.j] ELSE -100 - rq[E.j] IN
            /\ IF rq[E.j] > -200 THEN /\ conns' = [conns EXCEPT ![i] = @ + 1]
                                      /\ rq' = [rq EXCEPT ![E.k] = i, ![E.j] = -3]
               ELSE UNCHANGED conns /\ rq' = [rq EXCEPT ![E.k] = -300, ![E.j] = -3]
            /\ UNCHANGED <<conf, made, dest, cur, proc, bad, inst, repl, term, hups, kills, lost, fresh, g, gen, ph, pt, pk, since, fds>>
EGo == E.o = "go" /\ SUnch /\ UNCHANGED <<g, gen, ph, pt, pk, rq, since, fds>>
EResp == /\ E.o = "resp"
         /\ \/ /\ rq[E.k] > 0 /\ gen[rq[E.k]] = E.g /\ Done(rq[E.k])
               /\ rq' = [rq EXCEPT ![E.k] = IF E.ka THEN -100 - @ ELSE -3]
            \/ \* it was sent before the kill
               /\ rq[E.k] = -300 - E.g /\ SUnch
               /\ rq' = [rq EXCEPT ![E.k] = IF E.ka THEN -299 ELSE -3]
         /\ UNCHANGED <<g, gen, ph, pt, pk, since, fds>>
Down == term \/ pt
EGet == E.o = "get" /\ (\E i \in Listening: gen[i] = E.g) /\ SUnch /\ UNCHANGED <<g, gen, ph, pt, pk, rq, since, fds>>
EFail == /\ E.o = "fail"
         /\ \/ rq[E.k] <= -300 /\ SUnch
            \/ rq[E.k] = -1 /\ Down /\ SUnch
            \/ /\ rq[E.k] > 0 /\ proc[rq[E.k]] = "stopping" /\ Cut(rq[E.k])
               /\ (E.again \/ (E.t - since[rq[E.k]] >= 2500 /\ E.t - E.sent >= 2500))
         /\ rq' = [rq EXCEPT ![E.k] = -3]
         /\ UNCHANGED <<g, gen, ph, pt, pk, since, fds>>
EOff == /\ E.o = "off"
        /\ \/ rq[E.k] <= -300 /\ SUnch
           \/ rq[E.k] = -1 /\ Down /\ SUnch
           \/ rq[E.k] > 0 /\ proc[rq[E.k]] = "stopping" /\ Cut(rq[E.k])
        /\ rq' = [rq EXCEPT ![E.k] = -3]
        /\ UNCHANGED <<g, gen, ph, pt, pk, since, fds>>
EEof == /\ E.o = "eof" /\ rq[E.k] < -100
        /\ (rq[E.k] > -200 => proc[-100 - rq[E.k]] \in {"stopping", "none"})
        /\ rq' = [rq EXCEPT ![E.k] = -3] /\ SUnch /\ UNCHANGED <<g, gen, ph, pt, pk, since, fds>>
Still == /\ ph = 0 /\ ~pt /\ pk = 0
         /\ \A i \in I: proc[i] \in {"none", "running"} \/ (proc[i] = "warmup" /\ i = repl) \/ (proc[i] = "stopping" /\ conns[i] > 0)
         /\ \A i \in I: dest[i] = "fin" => proc[i] \in {"none", "stopping"}
         /\ \A i \in I: proc[i] = "stopping" => \A k \in Mine(i): Now - since[i] < 8000
         /\ \A i \in I: proc[i] \in {"stopping", "none"} => Idle(i) = {}
         /\ \A k \in K: rq[k] < 0 => rq[k] \in {-1, -3} \/ rq[k] \in -199..-100
         /\ (Listening # {} => \A k \in K: rq[k] # -1)
ESet == /\ E.o = "set" /\ Still /\ E.w = Cardinality(Live) /\ SUnch
        /\ fds' = IF E.w = 1 /\ fds = 0 THEN E.f ELSE fds
        /\ (E.w = 1 /\ fds # 0 => E.f <= fds + 2)
        /\ UNCHANGED <<g, gen, ph, pt, pk, rq, since>>
EGone == /\ E.o = "gone" /\ term /\ Live = {} /\ E.rc = 0 /\ SUnch
         /\ UNCHANGED <<g, gen, ph, pt, pk, rq, since, fds>>
Event == m <= Len(T.ev) /\ Adv /\ (EEdit \/ EHup \/ ETerm \/ EKill \/ ESend \/ EAgain \/ EGo \/ EGet \/ EResp \/ EFail \/ EOff \/ EEof \/ ESet \/ EGone)
TNext == Event \/ (m <= Len(T.ev) /\ Hidden)
TSpec == TInit /\ [][TNext]_<<vars, tv>>
At == m > TLCGet(1) => TLCSet(1, m) /\ PrintT(<<"AT", m>>)
ASSUME TLCSet(1, 0)
Acc == m > Len(T.ev) => PrintT(<<"ACC", ti>>)
=============================================================================
