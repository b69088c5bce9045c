------------------------------ MODULE Balance ------------------------------
(* A balancer over backends 1..n. view: what the balancer believes; load: requests handed to a backend that have no answer yet; ptr: the backend chosen last.
   A request whose backend cannot be reached goes to another one; if none can be used it waits, and is tried again when a backend may be used again. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
\* round robin: the first usable one after ptr in cyclic order
Dist(n, p, b) == (b - p - 1) % n
RR(n, p, usable) == {b \in usable : \A c \in usable : Dist(n, p, b) <= Dist(n, p, c)}
SQF(load, usable) == {b \in usable : \A c \in usable : load[b] <= load[c]}
Pick(m, n, p, load, usable) == IF m = "rr" THEN RR(n, p, usable) ELSE SQF(load, usable)
\* what an observer may see: up is known, but a backend that failed recently (not in sure) may be passed over
Seen(m, n, p, load, up, sure) == {b \in up : b \in Pick(m, n, p, load, sure \cup {b})}
=============================================================================
