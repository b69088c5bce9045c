------------------------------ MODULE AccessMC ------------------------------
(* every history of table operations over keys of at most W bits, and every rule list over the same networks; the
   abstract keys are stretched to real widths when the histories are replayed on the library *)
EXTENDS Access, TLC, Json
CONSTANTS W, Depth, Show, Broken
VARIABLES t, h
Keys == UNION {[1..n -> {0, 1}] : n \in 0..W}
Full == [1..W -> {0, 1}]
Ops == {<<"I", k>> : k \in Keys} \cup {<<"R", k>> : k \in Keys}
Init == t = <<>> /\ h = <<>>
Do(o) == t' = IF o[1] = "I" THEN Put(t, o[2], Len(h) + 1) ELSE Del(t, o[2])
Next == Len(h) < Depth /\ \E o \in Ops : Do(o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_<<t, h>>
(* the entry for a key is the last insertion not followed by a removal *)
Last(k) == LET P == {i \in 1..Len(h) : h[i][2] = k} IN
           IF P = {} THEN 0 ELSE LET m == CHOOSE i \in P : \A j \in P : j <= i IN IF h[m][1] = "I" THEN m ELSE 0
ExactIsLast == \A k \in Keys : Exact(t, k) = Last(k)
(* the longest prefix is found level by level *)
RECURSIVE Down(_, _)
Down(k, n) == IF n < 0 THEN 0 ELSE IF Exact(t, SubSeq(k, 1, n)) # 0 THEN Exact(t, SubSeq(k, 1, n)) ELSE IF Broken THEN 0 ELSE Down(k, n - 1)
LongestIsDown == \A k \in Full : Longest(t, k) = Down(k, W)
(* a table filled by rules in order decides like the rules: read insertions as rules (odd value allow) *)
Rules == {i \in 1..Len(h) : h[i][1] = "I"}
NoRemove == \A i \in 1..Len(h) : h[i][1] = "I"
Decide(k) == LET C == {i \in Rules : IsPrefix(h[i][2], k)} IN
             IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : Len(h[j][2]) < Len(h[i][2]) \/ (Len(h[j][2]) = Len(h[i][2]) /\ j <= i)
TableDecides == NoRemove => \A k \in Full : Longest(t, k) = Decide(k)
Emit == (Show /\ Len(h) = Depth) => PrintT(<<"SCN", ToJson(h)>>)
=============================================================================
