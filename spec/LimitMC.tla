------------------------------ MODULE LimitMC ------------------------------
EXTENDS Limit, TLC
CONSTANTS R, MaxT, ProgNo, Leak
VARIABLES s, now, adm, last
S(t, lim, act, ctx) == [t |-> t, lim |-> lim, act |-> act, ctx |-> ctx]
Progs == << <<S("con", 2, "none", 1)>>,
            <<S("con_ip", 1, "none", 1)>>,
            <<S("con", 2, "resp", 1), S("con_ip", 1, "none", 2)>>,
            <<S("con_ip", 1, "pass", 1), S("con", 1, "none", 2)>>,
            <<S("con", 3, "none", 1), S("con", 3, "pass", 1)>>,
            <<S("req", 1, "none", 1)>>,
            <<S("req_ip", 2, "none", 1), S("con", 2, "none", 2)>> >>
P == Progs[ProgNo]
IPs == {"a", "b"}
Init == s = Empty /\ now = 0 /\ adm = <<>> /\ last = [res |-> "none", full |-> TRUE]
Full(x, ip) == LET st == P[x.step] IN st.t \in {"con", "con_ip"} => Cnt(x.s, KeyOf(st, ip)) >= st.lim
DoStart(r, ip) == /\ r \notin DOMAIN s.held
                  /\ \E x \in Prog(s, P, 1, ip, now, now, <<>>, <<>>) :
                     /\ last' = [res |-> x.res, full |-> x.res = "backend" \/ Full(x, ip)]
                     /\ s' \in {y.s : y \in {z \in Start(s, P, r, ip, now, now) : z.res = x.res /\ z.marks = x.marks}}
                     /\ adm' = IF x.res = "backend" THEN Append(adm, [ip |-> ip, t |-> now]) ELSE adm
                  /\ now' = now
DoEnd(r) == r \in DOMAIN s.held /\ s' = (IF Leak THEN [s EXCEPT !.held = [y \in DOMAIN s.held \ {r} |-> s.held[y]]] ELSE End(s, r)) /\ UNCHANGED <<now, adm, last>>
Tick == now < MaxT /\ now' = now + 500 /\ UNCHANGED <<s, adm, last>>
Next == Tick \/ \E r \in R : DoEnd(r) \/ \E ip \in IPs : DoStart(r, ip)
Spec == Init /\ [][Next]_<<s, now, adm, last>>
RECURSIVE InSlots(_, _)
InSlots(sl, k) == IF sl = <<>> THEN 0 ELSE (IF sl[1] = k THEN 1 ELSE 0) + InSlots(Tail(sl), k)
RECURSIVE SumOver(_, _)
SumOver(D, k) == IF D = {} THEN 0 ELSE LET r == CHOOSE x \in D : TRUE IN InSlots(s.held[r], k) + SumOver(D \ {r}, k)
(* every taken slot belongs to a request under way; no limit is exceeded; refusals happen only at the limit *)
Conserved == \A k \in DOMAIN s.cnt : s.cnt[k] = SumOver(DOMAIN s.held, k)
Bounded == \A i \in 1..Len(P) : P[i].t \in {"con", "con_ip"} => \A k \in DOMAIN s.cnt : k[1] = P[i].ctx => s.cnt[k] <= P[i].lim
RefusedOnlyFull == last.full
(* not more than twice the limit in any one second *)
Rate == \A i \in 1..Len(P) : P[i].t \in {"req", "req_ip"} /\ P[i].act # "pass" =>
          \A a \in 1..Len(adm) : LET W == {b \in a..Len(adm) : adm[b].t - adm[a].t < 1000 /\ (P[i].t = "req_ip" => adm[b].ip = adm[a].ip)} IN Cardinality(W) <= 2 * P[i].lim
Vac == last.res = "backend" \/ last.res = "none"
Small == Len(adm) <= (IF ProgNo = 7 THEN 4 ELSE 5)
=============================================================================
