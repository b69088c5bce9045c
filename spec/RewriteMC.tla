----------------------------- MODULE RewriteMC -----------------------------
(* every target of at most MaxT tokens through every program of at most MaxP statements of the pool *)
EXTENDS Rewrite, TLC, Json, IOUtils
CONSTANTS MaxT, MaxP, Show
World == ndJsonDeserialize(IOEnv.WORLD)[1]     \* [tok, stm, host, hdr, origin]
VARIABLES toks, prog, frozen
RECURSIVE Cat(_)
Cat(ts) == IF ts = <<>> THEN <<>> ELSE World.tok[ts[1]] \o Cat(Tail(ts))
Rq == [t |-> <<Slash>> \o Cat(toks), host |-> World.host, hdr |-> World.hdr, origin |-> World.origin]
Prog == [i \in 1..Len(prog) |-> World.stm[prog[i]]]
Init == toks = <<>> /\ prog = <<>> /\ frozen = FALSE
Next == \/ ~frozen /\ Len(toks) < MaxT /\ \E x \in 1..Len(World.tok) : toks' = Append(toks, x) /\ UNCHANGED <<prog, frozen>>
        \/ Len(prog) < MaxP /\ frozen' = TRUE /\ toks' = toks /\ \E x \in 1..Len(World.stm) : prog' = Append(prog, x)
Spec == Init /\ [][Next]_<<toks, prog, frozen>>
R == RunRw(Prog, Rq)
\* whatever the rules do, the path stays normal, and the raw path still denotes the path and the query
Consistent == OriginOk(Rq.t) => LET r == R IN
    /\ Normal(r.path)
    /\ r.status # 500 => (Find(r.query, 35) = 0 => /\ Path(r.raw) = r.path /\ Query(r.raw) = r.query)
\* a redirect relative to the current path stays on this host and in this directory
Rel(x) == x.k = "redirect" /\ \A i \in 1..Len(x.rules) : x.rules[i].ty \in {"rel", "query"}
StaysHere == (OriginOk(Rq.t) /\ Len(prog) = 1 /\ Rel(Prog[1])) => LET r == R IN
    r.status = 301 => LET o == World.origin l == r.loc IN
        /\ StartsWith(l, o)
        /\ StartsWith(Path(SubSeq(l, Len(o) + 1, Len(l))), DirOf(Path(Rq.t)))
\* a plain rewrite whose targets have no "?" leaves the query alone
Plain(x) == x.k = "rewrite" /\ \A i \in 1..Len(x.rules) : ~x.rules[i].hasq
KeepsQuery == (OriginOk(Rq.t) /\ Len(prog) = 1 /\ Plain(Prog[1])) => R.query = Query(Rq.t)
NeverMoves == OriginOk(Rq.t) => R.path = Path(Rq.t)
Emit == (Show /\ frozen /\ Len(prog) = MaxP /\ OriginOk(Rq.t)) => PrintT(<<"SCN", ToJson(<<prog, toks>>)>>)
=============================================================================
