---------------------------- MODULE RelayTrace ----------------------------
(* one record per response: [sc |-> scenario, hs |-> headers the producer set, obs |-> [st, fr, len, same, trunc, keep, next, hs, nfr, ndate, nserver]] *)
EXTENDS Relay, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ti
T == Traces[ti]
O == T.obs
Init == ti \in 1..Len(Traces) /\ Start(T.sc)
TNext == Next /\ ti' = ti
Spec == Init /\ [][TNext]_<<vars, ti>>
HeadOk == O.nfr <= 1 /\ O.ndate = 1 /\ O.nserver = 1
Conn == IF KeptOpen THEN O.keep /\ O.next = "ok" ELSE ~O.keep /\ O.next = "closed"
\* a request whose backend failed before its head was complete may also be answered by closing the connection
Silent == Over /\ res = "error" /\ O.st = 0 /\ O.len = 0 /\ O.next = "closed"
Answered == /\ Over /\ HeadOk
            /\ CASE res = "done" -> O.st = ans.st /\ O.fr = ans.fr /\ O.len = fwd /\ O.same /\ ~O.trunc /\ O.hs = T.hs
              [] res = "page" -> O.st = ans.st /\ O.fr = "length" /\ ~O.trunc /\ O.hs = T.hs
              [] res = "error" -> O.st \in 500..599 /\ O.fr = (IF sc.meth = "HEAD" THEN "none" ELSE "length") /\ ~O.trunc
              [] res = "cut" -> O.st = ans.st /\ O.fr = ans.fr /\ O.len <= All(sc) /\ O.same /\ O.trunc = (ans.fr = "chunked" \/ (ans.fr = "length" /\ O.len < ans.ann)) /\ O.hs = T.hs
            /\ IF res = "cut" THEN O.next = "closed" ELSE Conn
Match == Silent \/ Answered
Acc == Match => PrintT(<<"ACC", ti>>)
=============================================================================
