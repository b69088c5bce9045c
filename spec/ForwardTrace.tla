--------------------------- MODULE ForwardTrace ---------------------------
(* [r |-> request, s |-> what the backend saw: [line, hs, body, same] or [env, body, same]] *)
EXTENDS Forward, Json, IOUtils
TSet == ("HTTP_X_SET" :> "fixed") @@ ("FOO" :> "bar")
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ti
T == Traces[ti]
R == T.r
S == T.s
Count(k) == Cardinality({i \in 1..Len(S.hs) : S.hs[i].k = k})
Tokens == {S.hs[i].v : i \in {j \in 1..Len(S.hs) : S.hs[j].k = "connection"}}
ProxyOk == /\ S.line = ProxyLine(R) /\ E2E(S.hs) = E2E(R.hs)
           /\ \A o \in Own(R) : Count(o[1]) = 1 /\ \E i \in 1..Len(S.hs) : S.hs[i].k = o[1] /\ S.hs[i].v = o[2]
           /\ Count("transfer-encoding") = 0 /\ Count("te") = 0 /\ Count("proxy-connection") = 0
           /\ (~HasBody(R) => Count("content-length") = 0)
           /\ Tokens \subseteq {"close", "Upgrade"} /\ (("Upgrade" \in Tokens) = R.upgrade)
Names == {S.env[i].n : i \in 1..Len(S.env)}
EnvOk == /\ Cardinality(Names) = Len(S.env)           \* no variable twice
         /\ LET e == Env(R) IN Names = DOMAIN e /\ \A i \in 1..Len(S.env) : S.env[i].v = e[S.env[i].n]
         /\ (R.proto = "scgi" => S.env[1].n = "CONTENT_LENGTH")
Ok == /\ S.body = R.body /\ S.same /\ IF R.proto = "proxy" THEN ProxyOk ELSE EnvOk
Init == ti \in 1..Len(Traces)
Next == FALSE /\ UNCHANGED ti
Spec == Init /\ [][Next]_ti
Acc == Ok => PrintT(<<"ACC", ti>>)
=============================================================================
