------------------------------ MODULE PoolMC ------------------------------
EXTENDS Pool
CONSTANT MaxListen
VARIABLE n
Spec == Init /\ n = 0 /\ [][(Next /\ n' = IF lst' # lst THEN n + 1 ELSE n) /\ n' <= MaxListen]_<<vars, n>>
        /\ WF_<<vars, n>>(Connect /\ UNCHANGED n) /\ WF_<<vars, n>>(ConnOK /\ UNCHANGED n) /\ WF_<<vars, n>>(ConnFail /\ UNCHANGED n) /\ WF_<<vars, n>>(Calm /\ UNCHANGED n) /\ WF_<<vars, n>>(ConnLate /\ UNCHANGED n)
        /\ \A r \in Reqs : /\ SF_<<vars, n>>(Assign(r) /\ UNCHANGED n) /\ WF_<<vars, n>>(Reset(r) /\ UNCHANGED n) /\ WF_<<vars, n>>(Arrive(r) /\ UNCHANGED n)
                           /\ WF_<<vars, n>>((Answer(r) \/ Break(r)) /\ UNCHANGED n) /\ WF_<<vars, n>>((Good(r) \/ Error(r)) /\ UNCHANGED n) /\ WF_<<vars, n>>(Closed(r) /\ UNCHANGED n)
TypeOK == pend \in 0..MaxPending /\ idle \in Nat
Bound == pend <= MaxPending /\ idle <= Cardinality(Reqs)
\* an undisturbed request is never failed
Excused == \A r \in Reqs : rs[r] \in {"fail", "brk"} => r \in cause
Calmness == (~bad => \A r \in Waiting : r \notin cause \/ lst = "up")
\* nobody waits for ever once the backend listens again
Served == \A r \in Reqs : (rs[r] = "wait") ~> (rs[r] # "wait" \/ lst # "up")
Ends == \A r \in Reqs : (rs[r] = "con") ~> (rs[r] \in {"done", "end"} )
Vac == ~(\E r, q \in Reqs : r # q /\ rs[r] = "done" /\ r \in cause /\ rs[q] = "done" /\ q \notin cause /\ lst = "up" /\ n = 2)
VacReuse == ~(idle > 0 /\ Waiting = {} /\ pend = 0)
=============================================================================
