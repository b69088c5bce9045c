---------------------------- MODULE ThrottleTrace ----------------------------
(* Recorded queries against the bounds of Throttle.  A record has its pools and connections (rates in bytes per millisecond,
   kr = 0: no limit of its own) and events in the order of time (t in milliseconds since the start):
     c c t                a connection (of conns) begins
     q c t want got used  it asked for want, was granted got, used that much of it
     n c t                it was told to ask again
     x c t                it ends
     b ms t               the clock was set back by ms
     mark t, prog t pool conn   between a mark and the next prog, the connections of the pool (or the connection) asked whenever
                          they could, and nothing else limited them: they got most of what the rate allows
     sum t pool conn n     (recorded from the outside, through a server) n bytes had come out by t
     end t                                                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
K == 1024
Over == 8 * K
Max1 == 64 * K
VARIABLES ti, i, t, lvl, tot, base, clvl, ctot, cbase, alive, zero, back
vars == <<ti, i, t, lvl, tot, base, clvl, ctot, cbase, alive, zero, back>>
T == Traces[ti]
E == T.ev[i]
Adv == i' = i + 1 /\ UNCHANGED ti
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Pools == 1..Len(T.pools)
Conns == 1..Len(T.conns)
PC(p) == {c \in Conns: \E k \in 1..Len(T.conns[c].pools): T.conns[c].pools[k] = p}
NP(p) == Cardinality(PC(p))
Cap(p) == (T.workers + NP(p)) * T.pools[p].burst + NP(p) * 2 * (Max1 + Over)
CCap(c) == T.conns[c].burst + Max1 + 2 * Over
Init ==
  /\ ti \in 1..Len(Traces) /\ i = 1 /\ t = 0 /\ back = 0
  /\ lvl = [p \in Pools |-> Cap(p)] /\ tot = [p \in Pools |-> 0] /\ base = [p \in Pools |-> 0]
  /\ clvl = [c \in Conns |-> CCap(c)] /\ ctot = [c \in Conns |-> 0] /\ cbase = [c \in Conns |-> 0]
  /\ alive = [c \in Conns |-> -1] /\ zero = [c \in Conns |-> -1]
(* time goes on to E.t: everybody gains *)
Dt == E.t - t
L1(p) == Min(Cap(p), lvl[p] + T.pools[p].kr * (Dt + 1))
C1(c) == IF T.conns[c].kr = 0 THEN clvl[c] ELSE Min(CCap(c), clvl[c] + T.conns[c].kr * (Dt + 1))
Pass == t' = E.t /\ Dt >= 0 /\ (\A c \in Conns: zero[c] >= 0 /\ alive[c] >= 0 => E.t - zero[c] <= 320 + 1000 * back)
Gain == lvl' = [p \in Pools |-> L1(p)] /\ clvl' = [c \in Conns |-> C1(c)]
Keep == UNCHANGED <<tot, base, ctot, cbase>>
Begin == E.o = "c" /\ Pass /\ Gain /\ Keep /\ alive' = [alive EXCEPT ![E.c] = E.t] /\ UNCHANGED <<zero, back>> /\ Adv
Ask ==
  /\ E.o = "q" /\ alive[E.c] >= 0 /\ Pass
  /\ 0 <= E.got /\ E.got <= Min(Max1, E.want) /\ E.used <= E.got
  /\ LET c == E.c IN LET P == {p \in Pools: c \in PC(p)} IN
     /\ lvl' = [p \in Pools |-> L1(p) - IF p \in P THEN E.used ELSE 0]
     /\ tot' = [p \in Pools |-> tot[p] + IF p \in P THEN E.used ELSE 0]
     /\ clvl' = [d \in Conns |-> C1(d) - IF d = c /\ T.conns[c].kr > 0 THEN E.used ELSE 0]
     /\ ctot' = [ctot EXCEPT ![c] = @ + E.used]
     /\ \A p \in P: lvl'[p] >= 0 /\ tot'[p] <= T.pools[p].burst + Over * NP(p) + T.pools[p].kr * (E.t + 2 + 1000 * back)
     /\ (T.conns[c].kr > 0 =>
           clvl'[c] >= 0 /\ ctot'[c] <= T.conns[c].burst + Over + T.conns[c].kr * (E.t - alive[c] + 2) + T.conns[c].burst * back)
     /\ (P = {} /\ T.conns[c].kr = 0 => E.got = Min(Max1, E.want))
     /\ zero' = [zero EXCEPT ![c] = IF E.got = 0 THEN E.t ELSE -1]
  /\ UNCHANGED <<base, cbase, alive, back>> /\ Adv
Note == E.o = "n" /\ Pass /\ Gain /\ Keep /\ zero[E.c] >= 0 /\ zero' = [zero EXCEPT ![E.c] = -1] /\ UNCHANGED <<alive, back>> /\ Adv
End1 == E.o = "x" /\ Pass /\ Gain /\ Keep /\ alive' = [alive EXCEPT ![E.c] = -1] /\ UNCHANGED <<zero, back>> /\ Adv
Back == E.o = "b" /\ Pass /\ back' = back + 1
        /\ lvl' = [p \in Pools |-> Min(Cap(p), L1(p) + 1000 * T.pools[p].kr)]
        /\ clvl' = [c \in Conns |-> Min(CCap(c), C1(c) + T.conns[c].burst)]
        /\ zero' = [c \in Conns |-> -1]       \* what waits in the queue waits for the old time to come again
        /\ Keep /\ UNCHANGED alive /\ Adv
Mark == E.o = "mark" /\ Pass /\ Gain /\ base' = tot /\ cbase' = ctot /\ UNCHANGED <<tot, ctot, alive, zero, back>> /\ Adv
(* E.d: milliseconds since the mark *)
Prog == /\ E.o = "prog" /\ Pass /\ Gain
        /\ IF E.pool > 0
           THEN tot[E.pool] - base[E.pool] >= ((T.pools[E.pool].kr * E.d) \div 10) * 6 - Over * NP(E.pool) - T.pools[E.pool].kr * 1000
           ELSE ctot[E.conn] - cbase[E.conn] >= ((T.conns[E.conn].kr * E.d) \div 10) * 6 - Over - T.conns[E.conn].kr * 1000
        /\ Keep /\ UNCHANGED <<alive, zero, back>> /\ Adv
(* from the outside *)
Sum == /\ E.o = "sum" /\ E.t >= t /\ t' = E.t
       /\ IF E.pool > 0 THEN E.n <= 2 * T.pools[E.pool].burst + Over * E.conns + T.pools[E.pool].kr * E.t
                        ELSE E.n <= T.conns[E.conn].burst + Over + T.conns[E.conn].kr * E.t
       /\ UNCHANGED <<lvl, tot, base, clvl, ctot, cbase, alive, zero, back>> /\ Adv
End == E.o = "end" /\ Pass /\ UNCHANGED <<lvl, tot, base, clvl, ctot, cbase, alive, zero, back>> /\ Adv
Next == i <= Len(T.ev) /\ (Begin \/ Ask \/ Note \/ End1 \/ Back \/ Mark \/ Prog \/ Sum \/ End)
Spec == Init /\ [][Next]_vars
Acc == i = Len(T.ev) + 1 => PrintT(<<"ACC", ti>>)
=============================================================================
