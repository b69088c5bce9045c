------------------------------- MODULE Pool -------------------------------
(* Requests handed to one backend and the connections they get: the life of every request from arrival to answer,
   the connections being opened, kept idle and used, and a backend that may be listening ("up"), refusing ("down")
   or not accepting ("stuck").  What a request may end with follows from its own history only.               *)
EXTENDS Naturals, FiniteSets
CONSTANTS Reqs, MaxPending
VARIABLES rs,      \* request -> "new" | "wait" | "con" | "arr" | "ans" | "brk" | "fail" | "done" | "gone" (client left; connection still open) | "end"
          cause,   \* requests whose failure is excused: refused, timed out, or broken off by the backend
          pend, idle, lst,
          bad      \* connects may be under way that were started while the backend was not listening
vars == <<rs, cause, pend, idle, lst, bad>>
Waiting == {r \in DOMAIN rs : rs[r] = "wait"}
Fresh(R) == /\ rs = [r \in R |-> "new"] /\ cause = {} /\ pend = 0 /\ idle = 0 /\ lst = "up" /\ bad = FALSE
Init == Fresh(Reqs)

Send(r)   == /\ rs[r] = "new" /\ rs' = [rs EXCEPT ![r] = "wait"]
             /\ cause' = (IF lst = "up" /\ ~bad THEN cause ELSE cause \cup {r}) /\ UNCHANGED <<pend, idle, lst, bad>>
\* connections: opened only while somebody waits without one coming
Connect   == /\ pend < MaxPending /\ pend + idle < Cardinality(Waiting) /\ pend' = pend + 1 /\ UNCHANGED <<rs, cause, idle, lst, bad>>
ConnOK    == /\ pend > 0 /\ lst # "down" /\ pend' = pend - 1 /\ idle' = idle + 1 /\ UNCHANGED <<rs, cause, lst, bad>>
\* a failed connect ends all who wait; it can fail only if the backend was not listening at some time since
ConnFail  == /\ pend > 0 /\ pend' = pend - 1 /\ Waiting # {} /\ Waiting \subseteq cause
             /\ rs' = [r \in DOMAIN rs |-> IF rs[r] = "wait" THEN "fail" ELSE rs[r]] /\ UNCHANGED <<cause, idle, lst, bad>>
ConnLate  == /\ pend > 0 /\ Waiting = {} /\ pend' = pend - 1 /\ UNCHANGED <<rs, cause, idle, lst, bad>>
Assign(r) == /\ rs[r] = "wait" /\ idle > 0 /\ idle' = idle - 1 /\ rs' = [rs EXCEPT ![r] = "con"] /\ UNCHANGED <<cause, pend, lst, bad>>
IdleEnd   == /\ idle > 0 /\ idle' = idle - 1 /\ UNCHANGED <<rs, cause, pend, lst, bad>>
\* the connection was in the accept queue of a backend that went away
Reset(r)  == /\ rs[r] = "con" /\ r \in cause /\ rs' = [rs EXCEPT ![r] = "fail"] /\ UNCHANGED <<cause, pend, idle, lst, bad>>

Arrive(r) == /\ rs[r] = "con" /\ rs' = [rs EXCEPT ![r] = "arr"] /\ UNCHANGED <<cause, pend, idle, lst, bad>>
Answer(r) == /\ rs[r] = "arr" /\ rs' = [rs EXCEPT ![r] = "ans"] /\ UNCHANGED <<cause, pend, idle, lst, bad>>
Break(r)  == /\ rs[r] = "arr" /\ rs' = [rs EXCEPT ![r] = "brk"] /\ cause' = cause \cup {r} /\ UNCHANGED <<pend, idle, lst, bad>>
\* what the client gets
Good(r)   == /\ rs[r] = "ans" /\ rs' = [rs EXCEPT ![r] = "done"] /\ UNCHANGED <<cause, pend, idle, lst, bad>>
Error(r)  == /\ rs[r] \in {"fail", "brk"} /\ r \in cause /\ rs' = [rs EXCEPT ![r] = "done"] /\ UNCHANGED <<cause, pend, idle, lst, bad>>
\* the client leaves
Abort(r)  == /\ rs[r] \notin {"new", "done", "gone", "end"}
             /\ rs' = [rs EXCEPT ![r] = IF rs[r] \in {"con", "arr"} THEN "gone" ELSE "end"] /\ UNCHANGED <<cause, pend, idle, lst, bad>>
Closed(r) == /\ rs[r] = "gone" /\ rs' = [rs EXCEPT ![r] = "end"] /\ UNCHANGED <<cause, pend, idle, lst, bad>>
Listen(x) == /\ lst # x /\ lst' = x /\ bad' = TRUE /\ UNCHANGED <<rs, pend, idle>>
             /\ cause' = (IF x = "up" THEN cause ELSE cause \cup {r \in DOMAIN rs : rs[r] \in {"wait", "con"}})
Calm      == /\ lst = "up" /\ bad /\ pend = 0 /\ bad' = FALSE /\ UNCHANGED <<rs, cause, pend, idle, lst>>
Hidden == Connect \/ ConnOK \/ ConnFail \/ ConnLate \/ IdleEnd \/ \E r \in DOMAIN rs : Assign(r) \/ Reset(r)
Visible == \E r \in DOMAIN rs : Send(r) \/ Arrive(r) \/ Answer(r) \/ Break(r) \/ Good(r) \/ Error(r) \/ Abort(r) \/ Closed(r)
Next == Hidden \/ Calm \/ Visible \/ \E x \in {"up", "down", "stuck"} : Listen(x)
\* everybody is served or excused; nothing is left hanging
Settled == /\ \A r \in DOMAIN rs : rs[r] \in {"new", "arr", "done", "end"}
=============================================================================
