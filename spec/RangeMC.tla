------------------------------ MODULE RangeMC ------------------------------
EXTENDS Range, TLC, Json
CONSTANTS MaxT, Sizes, Show
Tok == << <<45>>, <<44>>, <<48>>, <<51>>, <<55>>, <<32>>, <<50, 48>> >>      \* - , 0 3 7 SP 20
VARIABLE toks
RECURSIVE Cat(_)
Cat(ts) == IF ts = <<>> THEN <<>> ELSE Tok[ts[1]] \o Cat(Tail(ts))
H == BYTES \o <<61>> \o Cat(toks)
Init == toks = <<>>
Next == Len(toks) < MaxT /\ \E x \in 1..Len(Tok) : toks' = Append(toks, x)
Spec == Init /\ [][Next]_toks
\* ranges lie in the file; malformed headers never select a part; a satisfiable range is never refused
RangesInside == \A n \in Sizes : \A a \in Answers(H, n) : Inside(a, n)
Complete == \A n \in Sizes : WellFormed(H) => \A a \in Answers(H, n) : (a.st = 416) <=> \A i \in 1..Len(Specs(H)) : Bounds(Specs(H)[i], n)[1] > Bounds(Specs(H)[i], n)[2]
Covers == \A n \in Sizes : WellFormed(H) => \A a \in Answers(H, n) : a.st # 200
Vac == \A n \in Sizes : \A a \in Answers(H, n) : Len(a.parts) < 2
Emit == Show => PrintT(<<"SCN", ToJson(toks)>>)
=============================================================================
