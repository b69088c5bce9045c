----------------------------- MODULE Lifecycle -----------------------------
(* The supervisor ("angel", angel_server.c, angel_plugin_core.c) and its workers (server.c, worker.c).  The angel holds the
   listening sockets; it runs one worker, replaces it by a fresh one on SIGHUP (the new one first gets ready and listens, then the
   old one stops listening, finishes what it has and exits), keeps the old one if the new one cannot start, starts a killed
   worker again, and stops everything on SIGTERM.  A worker goes boot - ready (suspended) - warmup/running (both listen) -
   stopping (no more accepts) - gone, the last only when its connections are done.                                          *)
EXTENDS Naturals, FiniteSets
CONSTANTS N, Hups, Kills, MaxConns, MayBad, Bug
I == 1..N                      \* instances, in the order of their creation
VARIABLES conf,                \* the configuration is good
          made, dest, cur,     \* number of instances; what the angel wants and knows of each
          proc, bad,           \* the process of each; it was started with a bad configuration
          inst, repl,          \* the instance in charge, the one replacing it (0: none)
          term, hups, kills, conns, lost, fresh
vars == <<conf, made, dest, cur, proc, bad, inst, repl, term, hups, kills, conns, lost, fresh>>
Live == {i \in I: proc[i] # "none"}
Listening == {i \in I: proc[i] \in {"warmup", "running"}}
Init ==
  /\ conf \in (IF MayBad THEN BOOLEAN ELSE {TRUE}) /\ made = 1
  /\ dest = [i \in I |-> IF i = 1 THEN "run" ELSE "none"] /\ cur = [i \in I |-> "down"]
  /\ proc = [i \in I |-> IF i = 1 THEN "boot" ELSE "none"] /\ bad = [i \in I |-> ~conf]
  /\ inst = 1 /\ repl = 0 /\ term = FALSE /\ hups = 0 /\ kills = 0 /\ conns = [i \in I |-> 0] /\ lost = 0 /\ fresh = ~conf
Edit == MayBad /\ conf' = ~conf /\ hups < Hups /\ UNCHANGED <<made, dest, cur, proc, bad, inst, repl, term, hups, kills, conns, lost>> /\ fresh' = FALSE
(* SIGHUP *)
Hup ==
  /\ ~term /\ hups < Hups /\ hups' = hups + 1
  /\ IF repl # 0 \/ made = N THEN UNCHANGED <<made, dest, cur, proc, bad, inst, repl, fresh>>
     ELSE LET n == made + 1
              gone == cur[inst] = "finished" /\ Bug # "lost" IN
          /\ made' = n /\ fresh' = TRUE
          /\ proc' = [proc EXCEPT ![n] = "boot"]
          /\ bad' = [bad EXCEPT ![n] = ~conf]
          /\ cur' = [cur EXCEPT ![n] = "down"]
          /\ dest' = [dest EXCEPT ![n] = IF gone THEN "run" ELSE "warmup", ![inst] = IF Bug = "early" THEN "fin" ELSE @]
          /\ IF gone THEN inst' = n /\ repl' = 0 ELSE repl' = n /\ UNCHANGED inst
  /\ UNCHANGED <<conf, term, kills, conns, lost>>
(* SIGTERM *)
Term ==
  /\ ~term /\ term' = TRUE
  /\ LET all == {inst} \cup (IF Bug = "orphan" THEN {} ELSE {repl} \ {0}) IN
     /\ dest' = [i \in I |-> IF i \in all THEN "fin" ELSE dest[i]]
     /\ repl' = IF Bug = "orphan" THEN repl ELSE 0
  /\ UNCHANGED <<conf, made, cur, proc, bad, inst, hups, kills, conns, lost, fresh>>
(* a worker that is told to stop notices *)
Notice(i) ==
  /\ dest[i] = "fin" /\ proc[i] \in {"boot", "ready", "warmup", "running"}
  /\ proc' = [proc EXCEPT ![i] = "stopping"]
  /\ UNCHANGED <<conf, made, dest, cur, bad, inst, repl, term, hups, kills, conns, lost, fresh>>
(* the angel hears that process i is gone *)
Reap(i) ==
  LET fail == dest[i] = "fin" \/ cur[i] = "down"        \* never got ready: not started again
      d1 == IF fail THEN [dest EXCEPT ![i] = "fin"] ELSE dest IN
  IF ~fail
  THEN /\ proc' = [proc EXCEPT ![i] = "boot"] /\ bad' = [bad EXCEPT ![i] = ~conf] /\ cur' = [cur EXCEPT ![i] = "down"]
       /\ UNCHANGED <<dest, inst, repl>>
  ELSE /\ cur' = [cur EXCEPT ![i] = "finished", ![inst] = IF i = repl /\ proc[inst] = "none" /\ Bug # "noresume" THEN "down" ELSE IF i = inst THEN "finished" ELSE @]
       /\ bad' = [bad EXCEPT ![inst] = IF i = repl /\ proc[inst] = "none" THEN ~conf ELSE @]
       /\ IF i = repl
          THEN \* keep the old one (start it again if it is gone)
               /\ repl' = 0 /\ inst' = IF Bug = "noresume" THEN i ELSE inst
               /\ dest' = IF Bug = "noresume" THEN [d1 EXCEPT ![inst] = "fin"] ELSE [d1 EXCEPT ![inst] = "run"]
               /\ proc' = [proc EXCEPT ![i] = "none", ![inst] = IF @ = "none" /\ Bug # "noresume" THEN "boot" ELSE @]
          ELSE IF i = inst /\ repl # 0
          THEN /\ inst' = repl /\ repl' = 0 /\ dest' = [d1 EXCEPT ![repl] = IF term /\ Bug # "orphan" THEN "fin" ELSE "run"]
               /\ proc' = [proc EXCEPT ![i] = "none", ![repl] = IF @ = "warmup" THEN "running" ELSE @]
          ELSE /\ UNCHANGED <<inst, repl>> /\ dest' = d1 /\ proc' = [proc EXCEPT ![i] = "none"]
(* a process ends by itself: it could not start, or has finished what it had *)
Exit(i) ==
  /\ \/ proc[i] = "boot" /\ bad[i]
     \/ proc[i] = "stopping" /\ (conns[i] = 0 \/ Bug = "drop")
  /\ lost' = lost + conns[i] /\ conns' = [conns EXCEPT ![i] = 0]
  /\ Reap(i) /\ UNCHANGED <<conf, made, term, hups, kills, fresh>>
Kill(i) ==
  /\ proc[i] # "none" /\ kills < Kills /\ kills' = kills + 1
  /\ conns' = [conns EXCEPT ![i] = 0]
  /\ Reap(i) /\ UNCHANGED <<conf, made, term, hups, lost, fresh>>
Ready(i) == \* the worker is ready and is told what to do
  /\ proc[i] = "boot" /\ ~bad[i]
  /\ cur' = [cur EXCEPT ![i] = "ready"]
  /\ proc' = [proc EXCEPT ![i] = "ready"]
  /\ UNCHANGED <<conf, made, dest, bad, inst, repl, term, hups, kills, conns, lost, fresh>>
Up(i) == \* it listens; the one it replaces is told to stop
  /\ proc[i] = "ready" /\ dest[i] \in {"warmup", "run"}
  /\ cur' = [cur EXCEPT ![i] = "up"]
  /\ proc' = [proc EXCEPT ![i] = IF dest[i] = "run" THEN "running" ELSE "warmup"]
  /\ dest' = IF i = repl /\ proc[inst] # "none" THEN [dest EXCEPT ![inst] = "fin"] ELSE dest
  /\ UNCHANGED <<conf, made, bad, inst, repl, term, hups, kills, conns, lost, fresh>>
Accept(i) == /\ i \in Listening /\ conns[i] < MaxConns /\ conns' = [conns EXCEPT ![i] = @ + 1]
             /\ UNCHANGED <<conf, made, dest, cur, proc, bad, inst, repl, term, hups, kills, lost, fresh>>
Done(i) == /\ conns[i] > 0 /\ conns' = [conns EXCEPT ![i] = @ - 1]
           /\ UNCHANGED <<conf, made, dest, cur, proc, bad, inst, repl, term, hups, kills, lost, fresh>>
Cut(i) == \* a connection that stands still for three seconds does not keep a stopping worker
          /\ proc[i] = "stopping" /\ Done(i)
Next == Edit \/ Hup \/ Term \/ \E i \in I: Exit(i) \/ Kill(i) \/ Ready(i) \/ Up(i) \/ Accept(i) \/ Notice(i) \/ Done(i)
Fair == \A i \in I: WF_vars(Exit(i)) /\ WF_vars(Ready(i)) /\ WF_vars(Up(i)) /\ WF_vars(Cut(i)) /\ WF_vars(Notice(i))
Spec == Init /\ [][Next]_vars /\ Fair
(* no request that was begun is given up, except by killing, or by standing still in a worker that has to stop (Cut) *)
Kept == lost = 0
(* once somebody listens somebody always does, unless stopped or killed *)
NoGap == [][(Listening # {} /\ ~term' /\ kills' = 0 /\ proc # proc') => Listening' # {}]_vars
Two == Cardinality(Live) <= 2
(* after SIGTERM everything ends *)
Ends == term ~> Live = {}
(* a SIGHUP that came with a good configuration (and nothing after it) leads to one worker of the newest instance *)
Takes == <>[](term \/ ~conf \/ ~fresh \/ kills > 0 \/ (Live = {inst} /\ inst = made /\ proc[inst] = "running"))
Vac == [](repl = 0)
Stable == <>[](term \/ (Cardinality(Live) <= 1 /\ repl = 0))
=============================================================================
