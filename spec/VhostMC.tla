------------------------------ MODULE VhostMC ------------------------------
(* every host of at most MaxH tokens and path of at most MaxT tokens through every program of at most MaxP statements of the pool *)
EXTENDS Vhost, TLC, Json, IOUtils
CONSTANTS MaxH, MaxT, MaxP, Show
World == ndJsonDeserialize(IOEnv.WORLD)[1]     \* [hosts, tok, stm, dirs, users]
VARIABLES host, toks, prog, ph
RECURSIVE Cat(_, _)
Cat(T, ts) == IF ts = <<>> THEN <<>> ELSE T[ts[1]] \o Cat(T, Tail(ts))
Rq == [h |-> Cat(World.hosts, host), t |-> <<Slash>> \o Cat(World.tok, toks)]
Prog == [i \in 1..Len(prog) |-> World.stm[prog[i]]]
Init == host = <<>> /\ toks = <<>> /\ prog = <<>> /\ ph = 0
Next == \/ ph = 0 /\ Len(prog) < MaxP /\ ph' = 0 /\ UNCHANGED <<host, toks>> /\ \E x \in 1..Len(World.stm) : prog' = Append(prog, x)
        \/ ph <= 1 /\ ph' = 1 /\ Len(host) < MaxH /\ UNCHANGED <<prog, toks>> /\ \E x \in 1..Len(World.hosts) : host' = Append(host, x)
        \/ ph <= 2 /\ ph' = 2 /\ Len(toks) < MaxT /\ UNCHANGED <<prog, host>> /\ \E x \in 1..Len(World.tok) : toks' = Append(toks, x)
Spec == Init /\ [][Next]_<<host, toks, prog, ph>>
R == RunV(World, Prog, Rq)
Segs(s) == Split(s, Slash)
HasUp(s) == \E i \in 1..Len(Segs(s)) : Segs(s)[i] = <<Dot, Dot>>
\* whatever the client sends as host and path, neither the document root nor the file climbs
NoClimb == (OriginOk(Rq.t)) => LET r == R IN ~HasUp(r.dr) /\ ~HasUp(r.ph)
\* the file is below the document root, and its rest is a tail of the path
Beneath == (OriginOk(Rq.t)) => LET r == R IN r.status = 0 => /\ Len(r.dr) <= Len(r.ph) /\ SubSeq(r.ph, 1, Len(r.dr)) = r.dr
                                                          /\ Normal(r.path)
\* the name decides, not its case, port or final dot
HostOnly == LET a == [Rq EXCEPT !.h = Down(@)] IN RunV(World, Prog, a) = R
VacUser == ~(R.dr # <<>> /\ \E i \in 1..Len(prog) : Prog[i].k = "userdir" /\ R.path # Path(Rq.t))
VacAlias == ~(\E i \in 1..Len(prog) : Prog[i].k = "alias" /\ R.dr # <<>> /\ Len(prog) = 1)
Emit == (Show /\ Len(prog) >= 1 /\ OriginOk(Rq.t) /\ HostPart(Rq.h) # <<>>) => PrintT(<<"SCN", ToJson(<<prog, host, toks>>)>>)
=============================================================================
