------------------------------- MODULE UrlMC -------------------------------
(* every target of at most MaxT tokens of the pool, over every configuration in IOEnv.WORLD *)
EXTENDS Url, TLC, Json, IOUtils
CONSTANTS MaxT, Show
World == ndJsonDeserialize(IOEnv.WORLD)[1]     \* [tok, cfgs, fs]
VARIABLE toks
RECURSIVE Cat(_)
Cat(ts) == IF ts = <<>> THEN <<>> ELSE World.tok[ts[1]] \o Cat(Tail(ts))
Tgt == <<Slash>> \o Cat(toks)
Init == toks = <<>>
Next == Len(toks) < MaxT /\ \E x \in 1..Len(World.tok) : toks' = Append(toks, x)
Spec == Init /\ [][Next]_toks
Normalised == OriginOk(Tgt) => Normal(Path(Tgt))
Idempotent == OriginOk(Tgt) => Simplify(Path(Tgt)) = Path(Tgt)
Containment == OriginOk(Tgt) => \A i \in 1..Len(World.cfgs) : Contained(World.cfgs[i], Resolve(World.fs, World.cfgs[i], Tgt).s)
NoSecret == OriginOk(Tgt) => \A i \in 1..Len(World.cfgs) : Resolve(World.fs, World.cfgs[i], Tgt).id # "secret"
NeverServes == \A i \in 1..Len(World.cfgs) : OriginOk(Tgt) => Resolve(World.fs, World.cfgs[i], Tgt).st # 200
Emit == (Show /\ OriginOk(Tgt)) => PrintT(<<"SCN", ToJson(toks)>>)
=============================================================================
