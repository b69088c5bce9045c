------------------------------ MODULE Chunked ------------------------------
(* chunked transfer coding: byte automaton of the decoder, declarative definition of a body, encoder *)
EXTENDS Integers, Sequences
CR == 13
LF == 10
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
IsHex(c) == HexVal(c) < 16
RECURSIVE DropZ(_)
DropZ(d) == IF d # <<>> /\ d[1] = 0 THEN DropZ(Tail(d)) ELSE d
\* a size is the list of its hexadecimal digits without leading zeros; it has to be below 2^63
Fits(d) == Len(d) < 16 \/ (Len(d) = 16 /\ d[1] < 8)
RECURSIVE Val(_, _)
Val(d, acc) == IF d = <<>> THEN acc ELSE Val(Tail(d), 16 * acc + d[1])
Huge == 1000000000
Size(d) == IF Len(d) > 6 THEN Huge ELSE Val(d, 0)

\* decoder: mode, digits of the current size, bytes missing in the current chunk, decoded bytes, number of bytes consumed
S0 == [m |-> "size0", d |-> <<>>, n |-> 0, out |-> <<>>, k |-> 0]
To(s, m) == [s EXCEPT !.m = m]
Delta(s, c) ==
    CASE s.m \in {"size0", "size"} ->
           IF IsHex(c) THEN LET d == DropZ(Append(s.d, HexVal(c))) IN IF Fits(d) THEN [s EXCEPT !.m = "size", !.d = d] ELSE To(s, "bad")
           ELSE IF c = CR /\ s.m = "size" THEN To(s, "sizeLF") ELSE To(s, "bad")
      [] s.m = "sizeLF" -> IF c # LF THEN To(s, "bad") ELSE IF s.d = <<>> THEN To(s, "tr0") ELSE [s EXCEPT !.m = "data", !.n = Size(s.d), !.d = <<>>]
      [] s.m = "data" -> [s EXCEPT !.out = Append(@, c), !.n = @ - 1, !.m = IF s.n = 1 THEN "dataCR" ELSE "data"]
      [] s.m = "dataCR" -> To(s, IF c = CR THEN "dataLF" ELSE "bad")
      [] s.m = "dataLF" -> To(s, IF c = LF THEN "size0" ELSE "bad")
      [] s.m = "tr0" -> To(s, IF c = CR THEN "endLF" ELSE IF c = LF THEN "any" ELSE "tr")
      [] s.m = "endLF" -> To(s, IF c = LF THEN "end" ELSE "any")
      [] s.m = "tr" -> To(s, IF c = CR THEN "trLF" ELSE IF c = LF THEN "any" ELSE "tr")
      [] s.m = "trLF" -> To(s, IF c = LF THEN "tr0" ELSE "any")
      [] s.m = "any" -> s                                   \* trailer section with stray CR or LF: where it ends is not specified
      [] OTHER -> s
Feed1(s, c) == IF s.m \in {"end", "bad"} THEN s ELSE LET n == Delta(s, c) IN IF n.m = "any" THEN n ELSE [n EXCEPT !.k = s.k + 1]
RECURSIVE Feed(_, _)
Feed(s, b) == IF b = <<>> THEN s ELSE Feed(Feed1(s, b[1]), Tail(b))

\* declarative definition: chunk* last-chunk trailer CRLF
RECURSIVE Hex(_)
Hex(b) == IF b = <<>> \/ ~IsHex(b[1]) THEN <<>> ELSE <<HexVal(b[1])>> \o Hex(Tail(b))
Sub(b, i) == SubSeq(b, i, Len(b))
NoEol(l) == \A i \in 1..Len(l) : l[i] \notin {CR, LF}
RECURSIVE IsTrailer(_)
IsTrailer(b) == b = <<CR, LF>> \/ \E i \in 2..(Len(b) - 1) : b[i] = CR /\ b[i + 1] = LF /\ NoEol(SubSeq(b, 1, i - 1)) /\ IsTrailer(Sub(b, i + 2))
RECURSIVE IsBody(_)
IsBody(b) == LET h == Hex(b) d == DropZ(h) k == Len(h) IN
             /\ k > 0 /\ Len(b) >= k + 2 /\ b[k + 1] = CR /\ b[k + 2] = LF
             /\ IF d = <<>> THEN IsTrailer(Sub(b, k + 3))
                ELSE LET n == Size(d) IN
                     /\ Len(b) >= k + 2 + n + 2 /\ b[k + 3 + n] = CR /\ b[k + 4 + n] = LF /\ IsBody(Sub(b, k + 5 + n))
RECURSIVE Payload(_)
Payload(b) == LET h == Hex(b) d == DropZ(h) k == Len(h) IN
              IF d = <<>> THEN <<>> ELSE SubSeq(b, k + 3, k + 2 + Size(d)) \o Payload(Sub(b, k + 5 + Size(d)))

\* encoder: one chunk per delivered piece of data, the last chunk when the stream ended
Dig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE HexStr(_)
HexStr(n) == IF n < 16 THEN <<Dig(n)>> ELSE HexStr(n \div 16) \o <<Dig(n % 16)>>
EncPiece(p) == IF p = <<>> THEN <<>> ELSE HexStr(Len(p)) \o <<CR, LF>> \o p \o <<CR, LF>>
Last == <<48, CR, LF, CR, LF>>
=============================================================================
