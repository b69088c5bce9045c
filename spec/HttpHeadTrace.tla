--------------------------- MODULE HttpHeadTrace ---------------------------
(* one observation per trace: [b |-> bytes, w |-> Seq of [i, n] (element i stands for n equal bytes),
   st |-> status of the first final response (0: none came), closed |-> the server closed afterwards,
   more |-> further responses after a refusal, meth |-> method echoed, xa |-> value of header x-a echoed, host |-> echoed host] *)
EXTENDS HttpHead, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, m, f
vars == <<ti, i, m, f>>
T == Traces[ti]
Init == ti \in 1..Len(Traces) /\ i = 1 /\ m = "start" /\ f = NoFields
Next == /\ m \notin {"end", "bad"} /\ i <= Len(T.b)
        /\ LET n == Delta(m, T.b[i]) IN m' = n /\ f' = Mark(f, m, n, i)
        /\ i' = i + 1 /\ ti' = ti
Spec == Init /\ [][Next]_vars

RECURSIVE Extra(_, _, _)
Extra(w, a, z) == IF w = <<>> THEN 0 ELSE (IF w[1].i >= a /\ w[1].i <= z THEN w[1].n - 1 ELSE 0) + Extra(Tail(w), a, z)
Weight(a, z) == IF z < a THEN 0 ELSE z - a + 1 + Extra(T.w, a, z)
Q == Parsed(T.b, f)
\* what may be answered here
Refused(set) == T.st \in set /\ T.closed /\ ~T.more
XA == <<120, 45, 97>>
RECURSIVE JoinTo(_, _)
JoinTo(acc, vs) == IF vs = <<>> THEN acc ELSE JoinTo((IF acc = <<>> THEN <<>> ELSE acc \o <<44, 32>>) \o vs[1], Tail(vs))
Join(vs) == JoinTo(<<>>, vs)
NoFold(vs) == \A j \in 1..Len(vs) : CR \notin {vs[j][n] : n \in 1..Len(vs[j])} /\ LF \notin {vs[j][n] : n \in 1..Len(vs[j])}
RECURSIVE DropDots(_)
DropDots(s) == IF s # <<>> /\ s[Len(s)] = 46 THEN DropDots(SubSeq(s, 1, Len(s) - 1)) ELSE s
WantHost == LET t == Target(Q.uri) hs == Values(Q.hs, HOST) IN
            IF t.host # <<>> THEN DropDots(Down(t.host[1]))
            ELSE IF hs = <<>> \/ hs[1] = <<>> THEN <<>> ELSE DropDots(HostPart(Down(hs[1]))[1])
AcceptedOk == /\ T.st = 200
              /\ T.meth = Q.method
              /\ T.host = WantHost
              /\ LET xs == Values(Q.hs, XA) IN (NoFold(xs) /\ T.w = <<>>) => T.xa = Join(xs)
\* bytes after the head that are no chunked body end the connection (without an answer if it was not sent yet)
BrokenBody == /\ T.st = 0 /\ T.closed /\ i <= Len(T.b)
              /\ \E j \in 1..Len(Q.hs) : Q.hs[j].k = TENC /\ Down(Q.hs[j].v) = CHUNKED
Ok == CASE m = "bad" -> Refused({400} \cup Rule(Weight(1, i - 1) > 65536, 413) \cup Rule(f.us > 0 /\ Weight(f.us, f.ue) > 8192, 414))
        [] m = "end" -> LET v == Viol(Q, Weight(1, i - 1), Weight(f.us, f.ue)) IN
                        IF v # {} THEN Refused(v)
                        ELSE BrokenBody \/ AcceptedOk
        [] OTHER -> \* incomplete: nothing may be answered yet, unless a limit is already exceeded
                    \/ T.st = 0 /\ Weight(1, i - 1) <= 65536 /\ ~T.closed
                    \/ Refused(Rule(Weight(1, i - 1) > 65536, 413) \cup Rule(f.us > 0 /\ m \notin {"uri"} /\ Weight(f.us, f.ue) > 8192, 414))
Done == m \in {"end", "bad"} \/ i > Len(T.b)
Acc == (Done /\ Ok) => PrintT(<<"ACC", ti>>)
TypeOk == m \in Modes
\* diagnosis of rejected traces
Diag == (Done /\ ~Ok) => PrintT(<<"REJ", ti, m, i, IF m = "end" THEN Viol(Q, Weight(1, i - 1), Weight(f.us, f.ue)) ELSE {}>>)
=============================================================================
