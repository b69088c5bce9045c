------------------------------ MODULE KeepAlive ------------------------------
(* One client connection and the three clocks of lighttpd2 (times in ms):
     io.timeout t           the client has to do something and no byte moves
     keepalive.timeout k    between two requests (0: no second request)
     keepalive.requests n   requests per connection (0: unlimited)
   Phases: "fresh" nothing received yet, "head" a request head is incomplete, "body" its body is,
   "busy" the server or a backend works, "flow"/"out" the client has to take response bytes (the backend has not/has finished),
   "idle" between requests, "closing" the last response announced the end, "shut".
   [lo, hi]: when the last byte moved, as far as it is known outside.                                    *)
EXTENDS Integers, Sequences
CONSTANTS Gran,   (* activity is noticed with this granularity *)
          Eps,    (* cached clock of the event loop *)
          Late    (* scheduling *)
Timed(ph) == ph \in {"fresh", "head", "body", "flow", "out"}
Start(t0, t1) == [ph |-> "fresh", lo |-> t0, hi |-> t1, n |-> 0, pend |-> <<>>, k |-> 0]
(* may the server have shut the connection at or before time t? *)
MayShut(s, io, t) == \/ Timed(s.ph) /\ t >= s.lo + io - Gran - Eps
                     \/ s.ph = "idle" /\ t >= s.lo + s.k - Eps
                     \/ s.ph \in {"closing", "shut"}
(* may it still be open at time t? *)
MayLive(s, io, t) == \/ Timed(s.ph) /\ t <= s.hi + io + Late
                     \/ s.ph = "idle" /\ t <= s.hi + s.k + 1000 + Late
                     \/ s.ph = "closing" /\ t <= s.hi + Late
                     \/ s.ph = "busy"
(* q: [full, part, cls]: how the answer has to look like when request number m gets it *)
LastReq(q, m, cf) == q.close \/ cf.k = 0 \/ (cf.n > 0 /\ m >= cf.n)
(* part of a head, or of a body, arrived *)
Input(s, ph, t0, t1) == [s EXCEPT !.ph = ph, !.lo = t0, !.hi = t1]
(* requests completed; what follows them is nothing, or a piece of the next head or body *)
Requests(s, qs, rest, t0, t1) == [s EXCEPT !.ph = "busy", !.lo = t0, !.hi = t1, !.pend = s.pend \o qs, !.n = s.n]
AfterAnswer(s, cf, rest, t0, t1) ==
  LET q == s.pend[1]  m == s.n + 1  l == LastReq(q, m, cf)
  IN [s EXCEPT !.n = m, !.pend = IF l THEN <<>> ELSE Tail(s.pend), !.lo = t0, !.hi = t1, !.k = cf.k,
               !.ph = IF l THEN "closing" ELSE IF Len(s.pend) > 1 THEN "busy" ELSE IF rest = "none" THEN "idle" ELSE rest]
Announced(s, cf) == LastReq(s.pend[1], s.n + 1, cf)
Down(s) == [s EXCEPT !.ph = "shut"]
=============================================================================
