----------------------------- MODULE BalanceMC -----------------------------
EXTENDS Balance
CONSTANTS N, Reqs, Method, Toggles, NoTimer, LeakLoad, Again
B == 1..N
VARIABLES up, view, load, ptr, st, off, q, tog, seen
vars == <<up, view, load, ptr, st, off, q, tog, seen>>
\* st: new, try b, wait, sched, at b, done, err, gone
S(x, b) == [x |-> x, b |-> b]
Init == /\ up \in SUBSET B /\ view = [b \in B |-> "alive"] /\ load = [b \in B |-> 0] /\ ptr = 0
        /\ st = [r \in Reqs |-> S("new", 0)] /\ off = FALSE /\ q = <<>> /\ tog = 0 /\ seen = [r \in Reqs |-> 0]
Alive == {b \in B : view[b] = "alive"}
Drop(b) == [load EXCEPT ![b] = IF LeakLoad THEN @ ELSE @ - 1]
\* choose a backend for r; l is the load without r
Choose(r, l, v, queue) ==
  LET A == {b \in B : v[b] = "alive"} IN
  IF A = {} THEN /\ st' = [st EXCEPT ![r] = S("wait", 0)] /\ q' = Append(queue, r) /\ off' = TRUE /\ load' = l /\ ptr' = ptr
  ELSE \E b \in Pick(Method, N, ptr, l, A) : /\ st' = [st EXCEPT ![r] = S("try", b)] /\ load' = [l EXCEPT ![b] = @ + 1] /\ ptr' = b /\ q' = queue /\ off' = off
Arrive(r) == /\ st[r].x = "new"
             /\ IF q # <<>> THEN st' = [st EXCEPT ![r] = S("wait", 0)] /\ q' = Append(q, r) /\ UNCHANGED <<load, ptr, off>>
                ELSE Choose(r, load, view, q)
             /\ UNCHANGED <<up, view, tog, seen>>
Retry(r) == /\ st[r].x = "sched" /\ Choose(r, load, view, q) /\ UNCHANGED <<up, view, tog, seen>>
Connect(r) == /\ st[r].x = "try"
              /\ LET b == st[r].b IN
                 IF b \in up THEN st' = [st EXCEPT ![r] = S("at", b)] /\ seen' = [seen EXCEPT ![r] = @ + 1] /\ UNCHANGED <<view, load, ptr, q, off>>
                 ELSE LET l == Drop(b)
                          v == [view EXCEPT ![b] = IF l[b] > 0 /\ @ # "down" THEN "over" ELSE "down"]
                      IN view' = v /\ Choose(r, l, v, q) /\ seen' = seen
              /\ UNCHANGED <<up, tog>>
Sched == [r \in Reqs |-> IF st[r].x = "wait" THEN S("sched", 0) ELSE st[r]]
\* an answer (or a failure after the request was passed on): the backend is not down, and the waiting requests are tried again
Finish(r, how) == /\ st[r].x = "at" /\ load' = Drop(st[r].b) /\ view' = [view EXCEPT ![st[r].b] = "alive"]
                  /\ st' = [[x \in Reqs |-> IF st[x].x = "wait" THEN S("sched", 0) ELSE st[x]] EXCEPT ![r] = S(how, st[r].b)] /\ q' = <<>> /\ off' = FALSE
                  /\ UNCHANGED <<up, ptr, tog, seen>>
Abort(r) == /\ st[r].x \in {"try", "at", "wait", "sched"}
            /\ IF st[r].x \in {"try", "at"} THEN load' = Drop(st[r].b) ELSE load' = load
            /\ st' = [st EXCEPT ![r] = S("gone", 0)] /\ q' = SelectSeq(q, LAMBDA x : x # r) /\ UNCHANGED <<up, view, ptr, off, tog, seen>>
Time(b) == /\ view[b] # "alive" /\ view' = [view EXCEPT ![b] = "alive"] /\ UNCHANGED <<up, load, ptr, st, off, q, tog, seen>>
Timer == /\ ~NoTimer /\ off /\ Alive # {} /\ st' = Sched /\ q' = <<>> /\ off' = FALSE /\ UNCHANGED <<up, view, load, ptr, tog, seen>>
Toggle(b) == /\ tog < Toggles /\ tog' = tog + 1 /\ up' = (IF b \in up THEN up \ {b} ELSE up \cup {b}) /\ UNCHANGED <<view, load, ptr, st, off, q, seen>>
\* a request sent again although it had been passed on (must not happen)
Twice(r) == /\ Again /\ st[r].x = "at" /\ st' = [st EXCEPT ![r] = S("sched", 0)] /\ load' = Drop(st[r].b) /\ UNCHANGED <<up, view, ptr, off, q, tog, seen>>
Next == \/ \E r \in Reqs : Arrive(r) \/ Retry(r) \/ Connect(r) \/ Finish(r, "done") \/ Finish(r, "err") \/ Abort(r) \/ Twice(r)
        \/ \E b \in B : Time(b) \/ Toggle(b)
        \/ Timer
Fair == /\ \A r \in Reqs : WF_vars(Arrive(r)) /\ WF_vars(Retry(r)) /\ WF_vars(Connect(r)) /\ WF_vars(Finish(r, "done"))
        /\ \A b \in B : WF_vars(Time(b))
        /\ SF_vars(Timer)
Spec == Init /\ [][Next]_vars
FSpec == Spec /\ Fair
Load == \A b \in B : load[b] = Cardinality({r \in Reqs : st[r].x \in {"try", "at"} /\ st[r].b = b})
OnceOnly == \A r \in Reqs : seen[r] <= 1
Waits == \A r \in Reqs : (st[r].x = "wait") = (\E i \in 1..Len(q) : q[i] = r)
Timed == q # <<>> => off
Served == (<>[](up # {})) => \A r \in Reqs : <>(st[r].x \in {"done", "err", "gone"})
VacWait == \A r \in Reqs : ~(st[r].x = "at" /\ tog = 2 /\ off = FALSE /\ \E x \in Reqs : st[x].x = "sched")
=============================================================================
