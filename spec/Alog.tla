-------------------------------- MODULE Alog --------------------------------
(* The access log. Text is a sequence of bytes (integers). A format is a sequence of items [t, x]; a request q carries what the client sent and saw.
   Data a client can choose is escaped: bytes outside ' '..'~' and the characters " and \ never appear as they are, so that a line is one record
   and a quoted field ends where the format says. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Hex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
EscByte(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 11 -> <<92, 118>>
                [] c >= 32 /\ c <= 126 /\ c \notin {34, 92} -> <<c>>
                [] OTHER -> <<92, 120, Hex(c \div 16), Hex(c % 16)>>
RECURSIVE EscFrom(_, _)
EscFrom(s, i) == IF i > Len(s) THEN <<>> ELSE EscByte(s[i]) \o EscFrom(s, i + 1)
Esc(s) == EscFrom(s, 1)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Dash == <<45>>
Or(s) == IF s = <<>> THEN Dash ELSE Esc(s)
RECURSIVE Joined(_, _)
Joined(vs, i) == IF i > Len(vs) THEN <<>> ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o vs[i] \o Joined(vs, i + 1)
Vals(hs, k) == LET m == SelectSeq(hs, LAMBDA h : h[1] = k) IN [i \in 1..Len(m) |-> m[i][2]]
Field(hs, k) == Joined(Vals(hs, k), 1)
Sp == <<32>>
\* the texts an item may become
Want(it, q) == CASE it.t = "lit" -> {it.x}
                 [] it.t = "%" -> {<<37>>}
                 [] it.t = "a" -> {q.a}
                 [] it.t = "h" -> {q.a}
                 [] it.t = "A" -> {q.la}
                 [] it.t = "p" -> {Dec(q.port)}
                 [] it.t = "m" -> {q.m}
                 [] it.t = "s" -> {Dec(q.st)}
                 [] it.t = "q" -> {Or(q.q)}
                 [] it.t = "U" -> {Esc(q.path)}
                 [] it.t = "f" -> {Or(q.file)}
                 [] it.t = "V" -> {Or(q.host)}
                 [] it.t = "v" -> IF q.name # <<>> THEN {q.name} ELSE IF q.host # <<>> THEN {q.host} ELSE {<<>>, Dash}
                 [] it.t = "r" -> {q.m \o Sp \o Esc(q.raw) \o Sp \o q.ver}
                 [] it.t = "i" -> {Or(Field(q.rq, it.x))}
                 [] it.t = "o" -> {Or(Field(q.rs, it.x))}
                 \* a variable that is set but empty may be shown as nothing or as '-'
                 [] it.t = "e" -> IF Vals(q.env, it.x) = <<>> THEN {Dash} ELSE {Esc(Field(q.env, it.x))} \cup (IF Field(q.env, it.x) = <<>> THEN {Dash} ELSE {})
                 [] it.t = "u" -> IF Vals(q.env, "REMOTE_USER") = <<>> THEN {Dash} ELSE {Esc(Field(q.env, "REMOTE_USER"))} \cup (IF Field(q.env, "REMOTE_USER") = <<>> THEN {Dash} ELSE {})
                 [] it.t = "t" -> {q.ts[i] : i \in 1..Len(q.ts)}
                 [] it.t = "X" -> {q.x}
                 [] it.t = "b" -> {IF n = 0 THEN Dash ELSE Dec(n) : n \in {q.body[i] : i \in 1..Len(q.body)}}
                 [] it.t = "B" -> {Dec(n) : n \in {q.body[i] : i \in 1..Len(q.body)}}
                 [] it.t = "O" -> {Dec(q.out)}
\* sizes of a response that was cut off, and durations, are only known to be numbers (below a bound)
Loose(it, q) == it.t \in {"D", "T", "I"} \/ (q.cut /\ it.t \in {"b", "B", "O"})
Most(it, q) == CASE it.t = "D" -> q.dmax [] it.t = "T" -> (q.dmax \div 1000000) + 1 [] OTHER -> 2147483647
Digit(c) == c \in 48..57
RECURSIVE Digits(_, _)
Digits(l, p) == IF p <= Len(l) /\ Digit(l[p]) THEN 1 + Digits(l, p + 1) ELSE 0
RECURSIVE Num(_, _, _)
Num(l, p, n) == IF n = 0 THEN 0 ELSE 10 * Num(l, p, n - 1) + (l[p + n - 1] - 48)
At(l, p, v) == p + Len(v) - 1 <= Len(l) /\ SubSeq(l, p, p + Len(v) - 1) = v
RECURSIVE Match(_, _, _, _, _)
Match(f, i, q, l, p) == IF i > Len(f) THEN p = Len(l) + 1
                        ELSE IF Loose(f[i], q) THEN
                             \/ LET n == Digits(l, p) IN n \in 1..9 /\ Num(l, p, n) <= Most(f[i], q) /\ Match(f, i + 1, q, l, p + n)
                             \/ q.cut /\ f[i].t = "b" /\ At(l, p, Dash) /\ Match(f, i + 1, q, l, p + 1)
                        ELSE \E v \in Want(f[i], q) : At(l, p, v) /\ Match(f, i + 1, q, l, p + Len(v))
IsLine(f, q, l) == Match(f, 1, q, l, 1)
RangeOf(s) == {s[i] : i \in 1..Len(s)}
\* ids: the requests a file's lines are about, in order; must: the ones that were answered and belong there; may: the ones that were given up
Exactly(ids, must, may) == /\ Cardinality(RangeOf(ids)) = Len(ids)
                           /\ RangeOf(must) \subseteq RangeOf(ids)
                           /\ RangeOf(ids) \subseteq RangeOf(must) \cup RangeOf(may)
=============================================================================
