------------------------------ MODULE ConfigMC ------------------------------
(* every condition expression with at most MaxL leaves, over every request of a small world, inside and outside an enclosing matching condition *)
EXTENDS Config, Json
CONSTANTS MaxL, Show
VARIABLES e, rq
RX(lit) == [a |-> TRUE, z |-> FALSE, it |-> <<[k |-> "lit", s |-> lit, min |-> 0, cap |-> FALSE], [k |-> "cls", s |-> "", min |-> 0, cap |-> TRUE]>>]
A(lv, op, s, rx, ty) == [k |-> "atom", lv |-> lv, key |-> "", op |-> op, s |-> s, i |-> 0, rx |-> rx, net |-> 0, ty |-> ty]
Atoms == {A("path", "=~", "", RX("/a"), "rx"), A("query", "!~", "", RX("q"), "rx"), A("host", "==", "h", RX(""), "str")}
Not(x) == [k |-> "not", l |-> x]
RECURSIVE Exprs(_)
Exprs(n) == LET B == IF n = 1 THEN Atoms ELSE UNION {{[k |-> o, l |-> l, r |-> r] : o \in {"and", "or"}, l \in Exprs(i), r \in Exprs(n - i)} : i \in 1..(n - 1)}
            IN B \cup {Not(x) : x \in B}
Rqs == [path : {"/a1", "/b"}, query : {"q2", ""}, host : {"h", "g"}, method : {"GET"}, raw : {""}, len : {0}, remote : {<<127, 0, 0, 1>>}, port : {1}, hd : {[x \in {} |-> ""]}, root : {""}, file : {[kind |-> "none", size |-> -1]}]
C1 == <<[k |-> "cap", f |-> 1, t |-> 1]>>
Mk(n) == <<[k |-> "h", n |-> n, p |-> C1]>>
If(c, b, x) == <<[k |-> "if", c |-> c, b |-> b, e |-> x]>>
Init == e \in UNION {Exprs(n) : n \in 1..MaxL} /\ rq \in Rqs
Next == UNCHANGED <<e, rq>>
Spec == Init /\ [][Next]_<<e, rq>>
Outer == A("path", "=~", "", RX("/"), "rx")
\* exactly one branch runs
One == LET r == Run(If(e, Mk(1), Mk(2)), rq) IN Len(r.hdr) = 1
\* negation swaps the branches, captures included
Swap == Run(If(e, Mk(1), Mk(2)), rq) = Run(If(Not(e), Mk(2), Mk(1)), rq)
\* double evaluation is stable, and what follows a block sees the captures of the enclosing block again
Restore == LET r == Run(If(Outer, Mk(0) \o If(e, Mk(1), Mk(2)) \o Mk(0), <<>>), rq) IN r.hdr[1] = r.hdr[3]
\* de Morgan
Morgan == e.k = "not" /\ e.l.k \in {"and", "or"} => Ev(e, rq, St0) = Ev([k |-> IF e.l.k = "and" THEN "or" ELSE "and", l |-> Not(e.l.l), r |-> Not(e.l.r)], rq, St0)
\* else-if chains
Chain == LET x == If(e, Mk(1), If(Not(e), Mk(2), Mk(3))) IN Run(x, rq).hdr[1] # "3:" /\ Len(Run(x, rq).hdr) = 1
NoCap == \A x \in 1..1 : Run(If(e, Mk(1), Mk(2)), rq).hdr[1] \in {"1:", "2:"}
Emit == (Show /\ rq.path = "/b" /\ rq.query = "" /\ rq.host = "g") => PrintT(<<"SCN", ToJson(e)>>)
=============================================================================
