----------------------------- MODULE ForwardMC -----------------------------
EXTENDS Forward
MSet == ("HTTP_X_SET" :> "fixed") @@ ("FOO" :> "bar")
Pool == {[n |-> "X-A", k |-> "x-a", v |-> "1"], [n |-> "x_a", k |-> "x_a", v |-> "2"], [n |-> "X-Set", k |-> "x-set", v |-> "evil"], [n |-> "Cookie", k |-> "cookie", v |-> "c"],
         [n |-> "X-Forwarded-For", k |-> "x-forwarded-for", v |-> "6.6.6.6"], [n |-> "Transfer-Encoding", k |-> "transfer-encoding", v |-> "chunked"],
         [n |-> "Connection", k |-> "connection", v |-> "close"], [n |-> "Content-Type", k |-> "content-type", v |-> "t"], [n |-> "Foo", k |-> "foo", v |-> "z"]}
CONSTANT N
VARIABLES hs, meth
R == [proto |-> "scgi", meth |-> meth, target |-> "/t", path |-> "/t", query |-> "", ver |-> 11, hs |-> hs, body |-> 0, port |-> "80", rport |-> "1", host |-> "h", tag |-> "t", file |-> "/f", root |-> "/r"]
Init == hs = <<>> /\ meth \in {"GET", "POST"}
Next == Len(hs) < N /\ \E h \in Pool : hs' = Append(hs, h) /\ UNCHANGED meth
Spec == Init /\ [][Next]_<<hs, meth>>
\* nothing a client sends changes what the configuration fixed or what the server knows for certain
Authentic == LET e == Env(R) IN \A n \in DOMAIN Set : e[n] = Set[n]
Known == LET e == Env(R) f == Fixed(R) IN \A n \in DOMAIN f : e[n] = f[n]
NoSpoof == \A i \in 1..Len(E2E(hs)) : E2E(hs)[i].k \notin Hop
EndToEnd == Len(E2E(hs)) = Cardinality({i \in 1..Len(hs) : hs[i].k \notin Hop})
\* every value of an end-to-end header reaches the environment
Substr(s, t) == \E i \in 1..(Len(t) - Len(s) + 1) : SubSeq(t, i, i + Len(s) - 1) = s
AllThere == LET e == Env(R) IN \A i \in 1..Len(hs) : Var(hs[i]) \in DOMAIN Set \/ Substr(hs[i].v, e[Var(hs[i])])
Vac == ~(Len(hs) = 3 /\ "HTTP_X_A" \in DOMAIN Env(R) /\ Env(R)["HTTP_X_A"] = "1, 2, 1")
=============================================================================
