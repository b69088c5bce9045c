------------------------------ MODULE Throttle ------------------------------
(* Rate limits (throttle.c, waitqueue.c, mod_throttle.c).  A pool has a rate and a burst.  Time is cut into steps; in every step
   the pool gains Rate units, which are dealt out to the workers by the number of connections waiting at each, by a worker among
   its waiting connections, and by a connection into its own magazine, from which it may send; a connection may overdraw by Over.
   Every unit is in exactly one place, so what can leave in any interval is at most what is in all the places at its start, plus
   what is gained in it: the invariant Bound (lvl is the room left in the worst interval that ends now).  The clock the pool sees
   is taken modulo Wrap and may be set back.                                                                            *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Workers, Conns, Rate, Burst, Over, Step, Ticks, Wrap, Back, Patience, Stalls, Bug
VARIABLES now, clock, last,      \* true time, the clock (mod Wrap), clock at the last gain
          wmag, wlast,           \* per worker: magazine, gain it dealt out last
          wait, pmag, cmag,      \* waiting connections; share of the pool; magazine of the connection
          hungry, done, idle, lvl, tot, moves
vars == <<now, clock, last, wmag, wlast, wait, pmag, cmag, hungry, done, idle, lvl, tot, moves>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
NC == Cardinality(Conns)
Cap == Cardinality(Workers) * Burst + NC * (2 * (Step + Over) + Burst)
HomeOf(c) == IF Cardinality(Workers) = 1 \/ c < 3 THEN 1 ELSE 2
Init ==
  /\ now = 0 /\ clock = 0 /\ last = 0 /\ wlast = [w \in Workers |-> 0]
  /\ wmag = [w \in Workers |-> IF Bug = "each" THEN Burst ELSE Burst \div Cardinality(Workers)]
  /\ wait = {} /\ pmag = [c \in Conns |-> 0] /\ cmag = [c \in Conns |-> 0]
  /\ hungry \in (IF Stalls > 0 THEN SUBSET Conns ELSE {Conns}) /\ moves = 0 /\ done = {} /\ idle = [c \in Conns |-> 0] /\ lvl = Cap /\ tot = 0
Fresh(w) == IF Bug = "order" THEN wlast[w] < last ELSE wlast[w] # last
(* one query and the writing that follows, in one step: registration, gain, dealing out, refill, use *)
Ask(c) ==
  LET w == HomeOf(c)
      fill == Step - cmag[c]
      short == fill > pmag[c]
      wt1 == IF short THEN wait \cup {c} ELSE wait
      cnt(v) == Cardinality({d \in wt1: HomeOf(d) = v})
      gain == short /\ clock # last
      got(v) == IF ~gain THEN 0 ELSE (Min(Burst, Rate) * cnt(v)) \div Cardinality(wt1)
      wm1 == [v \in Workers |-> IF Bug = "pile" \/ Min(wmag[v] + got(v), Burst) < wmag[v] THEN wmag[v] + got(v) ELSE Min(wmag[v] + got(v), Burst)]
      deal == short /\ Fresh(w)
      sup == IF deal THEN wm1[w] \div cnt(w) ELSE 0
      wm2 == IF deal THEN [wm1 EXCEPT ![w] = @ - sup * cnt(w)] ELSE wm1
      here == {d \in wt1: HomeOf(d) = w}
      pm1 == IF deal THEN [d \in Conns |-> IF d \in here THEN pmag[d] + sup ELSE pmag[d]] ELSE pmag
      wt2 == IF deal /\ sup > 0 THEN wt1 \ here ELSE wt1
      wt3 == IF short /\ fill > pm1[c] THEN wt2 \cup {c} ELSE wt2
      pf == Max(0, Min(fill, pm1[c]))
      cm1 == cmag[c] + pf
      may == Min(Step, cm1 + Over)
      u == Max(0, may)
  IN
  /\ wmag' = wm2 /\ wait' = wt3
  /\ wlast' = IF deal THEN [wlast EXCEPT ![w] = IF Bug = "order" THEN clock ELSE last] ELSE wlast
  /\ last' = IF gain THEN clock ELSE last
  /\ pmag' = [pm1 EXCEPT ![c] = IF Bug = "free" THEN @ ELSE @ - pf]
  /\ cmag' = [cmag EXCEPT ![c] = cm1 - u]
  /\ idle' = [idle EXCEPT ![c] = IF u > 0 THEN 0 ELSE @]
  /\ lvl' = lvl - u /\ tot' = Min(Cap + Rate * Ticks + 10, tot + u)
  /\ done' = IF u > 0 THEN done ELSE done \cup {c}
  /\ UNCHANGED <<now, clock, hungry, moves>>
Stall(c) == /\ moves < Stalls /\ moves' = moves + 1
            /\ hungry' = (IF c \in hungry THEN hungry \ {c} ELSE hungry \cup {c}) /\ idle' = [idle EXCEPT ![c] = 0]
            /\ UNCHANGED <<now, clock, last, wmag, wlast, wait, pmag, cmag, done, lvl, tot>>
(* a step of time: every hungry connection has sent what it may (who has to wait is woken in every step) *)
Tick(back) ==
  /\ now < Ticks /\ hungry \subseteq done
  /\ now' = now + 1 /\ done' = {}
  /\ clock' = IF back THEN (clock + Wrap - Back) % Wrap ELSE (clock + 1) % Wrap
  /\ lvl' = Min(Cap, lvl + Rate)
  /\ idle' = [c \in Conns |-> IF c \in hungry THEN idle[c] + 1 ELSE 0]
  /\ UNCHANGED <<last, wmag, wlast, wait, pmag, cmag, hungry, tot, moves>>
Next == (\E c \in hungry \ done: Ask(c)) \/ (\E c \in Conns: Stall(c)) \/ Tick(FALSE) \/ (Back > 0 /\ Tick(TRUE))
Spec == Init /\ [][Next]_vars
(* no interval lets more out than what was there at its start and what was gained in it; nor does the time since the start *)
Bound == lvl >= 0 /\ tot <= Burst + Over * NC + Rate * now
(* no place holds more than a burst for a worker *)
Places == \A w \in Workers: 0 <= wmag[w] /\ wmag[w] <= Burst
(* whoever keeps asking gets something now and then *)
Progress == \A c \in Conns: idle[c] <= Patience
=============================================================================
