----------------------------- MODULE ChunkedMC -----------------------------
(* all byte strings over a small alphabet up to MaxLen that are not refused earlier; all encodings of up to 3 pieces *)
EXTENDS Chunked, TLC, Json, FiniteSets
CONSTANTS MaxLen, Mode
Alpha == {48, 49, 50, CR, LF, 120}          \* 0 1 2 CR LF x
VARIABLES b, s, p
Pieces == UNION {[1..n -> {<<>>, <<120>>, <<48>>, <<13, 10>>, <<48, 13, 10, 13, 10>>}] : n \in 0..3}
RECURSIVE Cat(_)
Cat(x) == IF x = <<>> THEN <<>> ELSE x[1] \o Cat(Tail(x))
RECURSIVE Enc(_)
Enc(x) == IF x = <<>> THEN Last ELSE EncPiece(x[1]) \o Enc(Tail(x))
Init == s = S0 /\ b = <<>> /\ p \in (IF Mode = "enc" THEN Pieces ELSE {<<>>})
Next == /\ Mode = "dec" /\ Len(b) < MaxLen /\ s.m # "bad" /\ s.m # "any"
        /\ \E c \in Alpha : b' = Append(b, c) /\ s' = Feed1(s, c)
        /\ p' = p
Spec == Init /\ [][Next]_<<b, s, p>>
\* the automaton ends exactly when the bytes read so far are a body, and never before or again
EndIffBody == (s.m = "end" /\ s.k = Len(b)) <=> (s.m # "any" /\ IsBody(b))
Decoded == s.m = "end" => s.out = Payload(SubSeq(b, 1, s.k))
NoMore == s.m # "any" => Len(s.out) <= s.k
\* what follows a body is not touched
EncDec == Mode = "enc" => LET e == Enc(p) r == Feed(S0, e \o <<120>>) IN r.m = "end" /\ r.out = Cat(p) /\ r.k = Len(e)
Vac == s.m # "end"
Emit == (Mode = "dec" /\ (Len(b) = MaxLen \/ s.m \in {"bad", "end"})) => PrintT(<<"SCN", ToJson(b)>>)
=============================================================================
