-------------------------------- MODULE Limit --------------------------------
(* limit.con, limit.con_ip, limit.req, limit.req_ip.

   A program is a sequence of steps [t, lim, act, ctx]: t in {"con", "con_ip", "req", "req_ip"}; act in {"none", "resp",
   "pass"} is what happens when the limit is reached (503; a response of its own; nothing but a mark, the request goes
   on).  Steps with the same ctx are the same configured object.  Steps after the request got its answer are ignored.
   con/con_ip: a request takes a slot when it passes and returns it when it ends, however it ends.
   req/req_ip: a window of one second starts with the first request; at most lim requests pass in it.
   Times are intervals lo..hi (milliseconds); Early/Late are the tolerances of the clock. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Early, Late
KeyOf(st, ip) == <<st.ctx, IF st.t \in {"con_ip", "req_ip"} THEN ip ELSE "*">>
Cnt(s, k) == IF k \in DOMAIN s.cnt THEN s.cnt[k] ELSE 0
SetCnt(s, k, v) == [s EXCEPT !.cnt = [x \in DOMAIN s.cnt \cup {k} |-> IF x = k THEN v ELSE s.cnt[x]]]
NoWin == [lo |-> -1000000, hi |-> -1000000, n |-> 0]
Win(s, k) == IF k \in DOMAIN s.win THEN s.win[k] ELSE NoWin
SetWin(s, k, v) == [s EXCEPT !.win = [x \in DOMAIN s.win \cup {k} |-> IF x = k THEN v ELSE s.win[x]]]
Empty == [cnt |-> <<>>, win |-> <<>>, held |-> <<>>]

(* one step: set of [s, ok, slots] *)
Step(s, st, ip, lo, hi) ==
  LET k == KeyOf(st, ip) IN
  IF st.t \in {"con", "con_ip"}
  THEN IF Cnt(s, k) < st.lim THEN {[s |-> SetCnt(s, k, Cnt(s, k) + 1), ok |-> TRUE, slots |-> <<k>>]} ELSE {[s |-> s, ok |-> FALSE, slots |-> <<>>]}
  ELSE LET w == Win(s, k) IN
       (IF hi - w.lo >= 1000 - Early THEN {[s |-> SetWin(s, k, [lo |-> lo, hi |-> hi, n |-> 1]), ok |-> TRUE, slots |-> <<>>]} ELSE {})
       \cup (IF lo - w.hi <= 1000 + Late
             THEN {IF w.n < st.lim THEN [s |-> SetWin(s, k, [w EXCEPT !.n = @ + 1]), ok |-> TRUE, slots |-> <<>>] ELSE [s |-> s, ok |-> FALSE, slots |-> <<>>]}
             ELSE {})
(* the whole program: set of [s, res ("503", "resp", "backend"), step, at (object whose response was sent), marks, slots] *)
RECURSIVE Prog(_, _, _, _, _, _, _, _)
Prog(s, p, i, ip, lo, hi, slots, marks) ==
  IF i > Len(p) THEN {[s |-> s, res |-> "backend", step |-> 0, at |-> 0, marks |-> marks, slots |-> slots]}
  ELSE UNION {IF r.ok THEN Prog(r.s, p, i + 1, ip, lo, hi, slots \o r.slots, marks)
              ELSE IF p[i].act = "none" THEN {[s |-> r.s, res |-> "503", step |-> i, at |-> 0, marks |-> marks, slots |-> slots]}
              ELSE IF p[i].act = "resp" THEN {[s |-> r.s, res |-> "resp", step |-> i, at |-> p[i].ctx, marks |-> marks, slots |-> slots]}
              ELSE Prog(r.s, p, i + 1, ip, lo, hi, slots, Append(marks, p[i].ctx))
              : r \in Step(s, p[i], ip, lo, hi)}
RECURSIVE Release(_, _)
Release(s, slots) == IF slots = <<>> THEN s ELSE Release(SetCnt(s, slots[1], Cnt(s, slots[1]) - 1), Tail(slots))
(* a request answered at once returns its slots, one at the backend keeps them *)
Start(s, p, r, ip, lo, hi) ==
  {[x EXCEPT !.s = IF x.res = "backend" THEN [x.s EXCEPT !.held = [y \in DOMAIN x.s.held \cup {r} |-> IF y = r THEN x.slots ELSE x.s.held[y]]]
                   ELSE Release(x.s, x.slots)] : x \in Prog(s, p, 1, ip, lo, hi, <<>>, <<>>)}
End(s, r) == LET t == Release(s, s.held[r]) IN [t EXCEPT !.held = [y \in DOMAIN t.held \ {r} |-> t.held[y]]]
=============================================================================
