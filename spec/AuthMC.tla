------------------------------ MODULE AuthMC ------------------------------
(* the reload procedure against the guarantee: a file with versions written at arbitrary times, looked at by requests at arbitrary times; the
   server keeps [loaded version, time of the next look, time of the last look] and reloads if the modification time is recent enough.     *)
EXTENDS Auth, Integers, TLC
CONSTANTS TTL, MaxT, Texts, Bug
A == [kind |-> "plain", realm |-> <<82>>, ttl |-> TTL, file |-> 1]
Text(x) == CASE x = "both" -> <<97, 58, 112, 10, 98, 58, 113, 10>>       \* a:p b:q
             [] x = "one" -> <<97, 58, 112, 10>>                          \* a:p
             [] x = "chg" -> <<97, 58, 113, 13, 10>>                      \* a:q
             [] x = "bad" -> <<97, 112, 10>>
VARIABLES now, vs, ld, nextck, lastst, obs, seen
vars == <<now, vs, ld, nextck, lastst, obs, seen>>
Init == /\ now = 0 /\ vs = <<[f |-> Text("both"), lo |-> 0, hi |-> 0]>> /\ ld = 1 /\ nextck = TTL /\ lastst = -10 /\ obs = 1 /\ seen = 1
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<vs, ld, nextck, lastst, obs, seen>>
Write == Len(vs) < 3 /\ \E x \in Texts : vs' = Append(vs, [f |-> Text(x), lo |-> 1000 * now, hi |-> 1000 * now]) /\ UNCHANGED <<now, ld, nextck, lastst, obs, seen>>
MTime == vs[Len(vs)].hi \div 1000
Request ==
    /\ IF TTL # 0 /\ now >= nextck
       THEN /\ nextck' = now + TTL /\ lastst' = now
            /\ ld' = IF MTime >= lastst - (IF Bug THEN -1 ELSE 1) /\ Readable("plain", vs[Len(vs)].f) THEN Len(vs) ELSE ld
       ELSE UNCHANGED <<nextck, lastst, ld>>
    /\ obs' = ld' /\ seen' = obs /\ UNCHANGED <<now, vs>>
Next == Tick \/ Write \/ Request
Spec == Init /\ [][Next]_vars
\* what a request uses is a candidate of the guarantee
Fresh == [][Request => (obs' \in Cand(A, vs, seen', 1000 * now, 1000 * now))]_vars
\* a password taken out of the file is refused from TTL (and a second) later on
Gone(v, u) == \A w \in v..Len(vs) : Readable("plain", vs[w].f) /\ Entries(vs[w].f, u) = {}
Revoked == [][Request => \A v \in 2..Len(vs) : (TTL > 0 /\ Readable("plain", vs[v].f) /\ Gone(v, <<98>>) /\ vs[v].hi < 1000 * (now - TTL) - Early)
                => ~Valid(A, vs[obs'].f, [ok |-> TRUE, u |-> <<98>>, p |-> <<113>>], [pw |-> <<>>, dg |-> <<>>])]_vars
NeverReloads == ld = 1
=============================================================================
