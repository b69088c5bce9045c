---------------------------- MODULE AccessTrace ----------------------------
(* kinds of observations:
   table: ops Seq of [op, k (bits), v, r (result; for F the sorted values)]
   p4/p6: text, net, port (asked for), r
   in:    a, m, n, r
   rules: rules, obs Seq of [a (address bytes), ok (TRUE: not refused)], loaded
   cond:  text, a, r ("y"/"n"), loaded *)
EXTENDS Access, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, t
T == Traces[ti]
Same(r, m) == IF m.ok THEN r.ok /\ r.ip = m.ip /\ r.net = m.net /\ r.port = m.port ELSE ~r.ok
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
OneOk == CASE T.kind = "p4" -> Same(T.r, Parse4(T.text, T.net, T.port))
           [] T.kind = "p6" -> Same(T.r, Parse6(T.text, T.net, T.port))
           [] T.kind = "in" -> (T.r = 1) = InNet(T.a, T.m, T.n)
           [] T.kind = "rules" -> IF RulesOk(T.rules) THEN T.loaded /\ \A j \in 1..Len(T.obs) : T.obs[j].ok = Allowed(T.rules, T.obs[j].a)
                                  ELSE ~T.loaded
           [] T.kind = "cond" -> LET n4 == Parse4(T.text, TRUE, FALSE) n6 == Parse6(T.text, TRUE, FALSE) IN
                                 IF ~n4.ok /\ ~n6.ok THEN ~T.loaded
                                 ELSE LET n == IF n4.ok THEN n4 ELSE n6 IN T.loaded /\ \A j \in 1..Len(T.obs) : T.obs[j].ok = (Len(T.obs[j].a) = Len(n.ip) /\ InNet(T.obs[j].a, n.ip, n.net))   \* conditions never mix families
           [] OTHER -> TRUE
Init == ti \in 1..Len(Traces) /\ i = 1 /\ t = <<>>
E(e) == CASE e.op = "I" -> e.r = Exact(t, e.k) /\ t' = Put(t, e.k, e.v)
          [] e.op = "R" -> e.r = Exact(t, e.k) /\ t' = Del(t, e.k)
          [] e.op = "L" -> e.r = Longest(t, e.k) /\ t' = t
          [] e.op = "E" -> e.r = Exact(t, e.k) /\ t' = t
          [] e.op = "F" -> e.r = Sorted({t[k] : k \in DOMAIN t}) /\ t' = t
Next == \/ T.kind = "table" /\ i <= Len(T.ops) /\ E(T.ops[i]) /\ i' = i + 1 /\ ti' = ti
        \/ T.kind # "table" /\ i = 1 /\ OneOk /\ i' = 2 /\ UNCHANGED <<ti, t>>
Spec == Init /\ [][Next]_<<ti, i, t>>
Acc == (i = 1 + (IF T.kind = "table" THEN Len(T.ops) ELSE 1)) => PrintT(<<"ACC", ti>>)
=============================================================================
