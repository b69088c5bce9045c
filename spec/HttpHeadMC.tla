------------------------------ MODULE HttpHeadMC ------------------------------
(* All heads that can be put together from a pool of tokens (IOEnv.TOKENS: methods, targets, versions, header lines as
   byte sequences) with at most MaxH header lines; every head is read byte by byte by the automaton, then judged.      *)
EXTENDS HttpHead, TLC, Json, IOUtils
CONSTANTS MaxH, Show
Tok == ndJsonDeserialize(IOEnv.TOKENS)[1]
VARIABLES pick, m, f, i
vars == <<pick, m, f, i>>
Line(p) == Tok.method[p.m] \o <<SP>> \o Tok.uri[p.u] \o <<SP>> \o Tok.ver[p.v] \o <<CR, LF>>
RECURSIVE Hdrs(_)
Hdrs(h) == IF h = <<>> THEN <<>> ELSE Tok.hdr[h[1]] \o Hdrs(Tail(h))
Bytes(p) == Line(p) \o Hdrs(p.h) \o <<CR, LF>>
Init == /\ pick \in [m : 1..Len(Tok.method), u : 1..Len(Tok.uri), v : 1..Len(Tok.ver), h : {<<>>}]
        /\ m = "pick" /\ f = NoFields /\ i = 0
AddH == /\ m = "pick" /\ Len(pick.h) < MaxH
        /\ \E x \in 1..Len(Tok.hdr) : pick' = [pick EXCEPT !.h = Append(@, x)]
        /\ UNCHANGED <<m, f, i>>
\* reading all the bytes is deterministic: one step
RECURSIVE Run(_, _, _, _)
Run(b, mm, ff, j) == IF mm \in {"end", "bad"} \/ j > Len(b) THEN <<mm, ff, j - 1>>
                     ELSE LET n == Delta(mm, b[j]) IN Run(b, n, Mark(ff, mm, n, j), j + 1)
Read == /\ m = "pick"
        /\ LET r == Run(Bytes(pick), "start", NoFields, 1) IN m' = r[1] /\ f' = r[2] /\ i' = r[3]
        /\ UNCHANGED pick
Next == AddH \/ Read
Spec == Init /\ [][Next]_vars

B == Bytes(pick)
Q == Parsed(B, f)
V == Viol(Q, i, Len(Q.uri))
Accepted == m = "end" /\ V = {}
TypeOk == m \in Modes \cup {"pick"}
\* the head ends where the blank line is, and nowhere else
EndsThere == m = "end" => i = Len(B)
\* never two ways to delimit the body, never a body where the method has none
Unambiguous == Accepted =>
   LET cls == Values(Q.hs, CLEN) tes == Values(Q.hs, TENC) IN
   /\ Len(cls) <= 1 /\ (cls # <<>> => All(cls[1], Digit) /\ cls[1] # <<>>)
   /\ Cardinality({j \in 1..Len(tes) : Down(tes[j]) = CHUNKED}) <= 1
   /\ (\A j \in 1..Len(tes) : Down(tes[j]) \in {CHUNKED, IDENTITY})
   /\ (Q.method \in {GET, HEAD} => tes = <<>> \/ \A j \in 1..Len(tes) : Down(tes[j]) = IDENTITY)
OneHost == Accepted => Len(Values(Q.hs, HOST)) <= 1 /\ (Is11(Q) => Len(Values(Q.hs, HOST)) = 1)
NoControl == Accepted => All(Q.uri, 33..126) /\ All(Q.method, TokenChar)
Emit == (Show /\ m \notin {"pick"}) => PrintT(<<"SCN", ToJson([p |-> pick, s |-> IF m = "bad" THEN {400} ELSE V])>>)
\* anti vacuity: must be violated
NeverAccepts == ~Accepted
=============================================================================
