----------------------------- MODULE ChunkQueue -----------------------------
(* Chunk queues are byte FIFOs with exact accounting.  A queue holds chunks [k, d, o]: kind (memory or file), data (units),
   number of units already taken from its front.  bin/bout count what ever entered and left, lim names the memory limit
   object shared by queues (0: none; 1..2: shared objects; 10+q: the private one made by use_limit).                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NQ == 3
Q == 1..NQ
MemOps == {"as", "ab", "am", "au", "av", "lb", "nr"}
FileOps == {"fc", "fn", "fd", "ft", "fx"}
TmpOps == {"ft", "fx"}

Bytes(i, n) == [j \in 1..n |-> ((i + j - 1) % 250) + 1]
EmptyQ == [ch |-> <<>>, bin |-> 0, bout |-> 0, cl |-> 0, lim |-> 0]
Init0 == [q |-> [i \in Q |-> EmptyQ], lv |-> [i \in {1, 2, 11, 12, 13} |-> -1], ctr |-> 0, app |-> {}, gone |-> {}]

Rest(c) == SubSeq(c.d, c.o + 1, Len(c.d))
RECURSIVE Content(_)
Content(ch) == IF ch = <<>> THEN <<>> ELSE Rest(ch[1]) \o Content(Tail(ch))
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
MemLow(qq)  == Sum([i \in 1..Len(qq.ch) |-> IF qq.ch[i].k = "m" THEN Len(qq.ch[i].d) - qq.ch[i].o ELSE 0], 1..Len(qq.ch))
MemHigh(qq) == Sum([i \in 1..Len(qq.ch) |-> IF qq.ch[i].k = "m" THEN Len(qq.ch[i].d) ELSE 0], 1..Len(qq.ch))
TmpFiles(s) == Cardinality({c.t : c \in UNION {{s.q[i].ch[j] : j \in 1..Len(s.q[i].ch)} : i \in Q}} \ {0})

Min(a, b) == IF a < b THEN a ELSE b
Prefix(x, n) == SubSeq(x, 1, Min(n, Len(x)))
Range(x) == {x[i] : i \in 1..Len(x)}

App(s, i, k, t, n) ==
  IF n = 0 THEN s
  ELSE LET d == Bytes(s.ctr, n) IN
       [s EXCEPT !.q[i].ch = Append(@, [k |-> k, d |-> d, o |-> 0, t |-> t]), !.q[i].bin = @ + n, !.ctr = @ + n, !.app = @ \cup Range(d)]

(* data put into the free space behind the last memory chunk shares that chunk's memory (which is released as a whole) *)
Ext(s, i, n) ==
  LET ch == s.q[i].ch l == Len(ch) IN
  IF n = 0 \/ l = 0 THEN App(s, i, "m", 0, n)
  ELSE IF ch[l].k # "m" THEN App(s, i, "m", 0, n)
  ELSE LET d == Bytes(s.ctr, n) IN
       [s EXCEPT !.q[i].ch[l].d = @ \o d, !.q[i].bin = @ + n, !.ctr = @ + n, !.app = @ \cup Range(d)]
(* reading n units from a socket: some of them extend the last chunk, the rest comes in one or two blocks *)
Recv(s, i, n, k, f0) == LET m == n - k f == IF m > f0 THEN f0 ELSE m IN App(App(Ext(s, i, k), i, "m", 0, f), i, "m", 0, m - f)

(* take n units off the front: <<remaining chunks, taken chunks>> *)
RECURSIVE Take(_, _, _)
Take(ch, n, acc) ==
  IF n = 0 \/ ch = <<>> THEN <<ch, acc>>
  ELSE LET c == ch[1] have == Len(c.d) - c.o IN
       IF have <= n THEN Take(Tail(ch), n - have, Append(acc, c))
       ELSE <<<<[c EXCEPT !.o = @ + n]>> \o Tail(ch), Append(acc, [c EXCEPT !.d = SubSeq(c.d, c.o + 1, c.o + n), !.o = 0])>>

Steal(s, out, in, n) ==
  LET r == Take(s.q[in].ch, n, <<>>) k == Len(Content(r[2])) IN
  [s EXCEPT !.q[in].ch = r[1], !.q[in].bout = @ + k, !.q[out].ch = @ \o r[2], !.q[out].bin = @ + k]
Skip(s, i, n) ==
  LET r == Take(s.q[i].ch, n, <<>>) k == Len(Content(r[2])) IN
  [s EXCEPT !.q[i].ch = r[1], !.q[i].bout = @ + k, !.gone = @ \cup Range(Content(r[2]))]

QLen(s, i) == Len(Content(s.q[i].ch))

(* the state after a call; r is the number of units read by "nr" / whether "lb" was granted, which the implementation may choose *)
Apply(s, op, a, b, c, r) ==
  CASE op \in {"as", "ab", "am", "au", "av"} -> App(s, a, "m", 0, b)
    [] op = "aw" -> App(App(s, a, "m", 0, b), (a % NQ) + 1, "m", 0, c)
    [] op \in FileOps -> App(s, a, "f", IF op \in TmpOps THEN s.ctr + 1 ELSE 0, b)
    [] op = "sl" -> Steal(s, a, b, c)
    [] op = "sa" -> Steal(s, a, b, QLen(s, b))
    [] op = "sc" -> IF s.q[b].ch = <<>> THEN s ELSE Steal(s, a, b, Len(Rest(s.q[b].ch[1])))
    [] op = "sk" -> Skip(s, a, b)
    [] op = "nw" -> Skip(s, a, b)
    [] op = "sz" -> Skip(s, a, QLen(s, a))
    [] op = "rs" -> [Skip(s, a, QLen(s, a)) EXCEPT !.q[a].bin = 0, !.q[a].bout = 0, !.q[a].cl = 0]
    [] op = "cl" -> [s EXCEPT !.q[a].cl = 1]
    [] op = "lb" -> IF r = 1 THEN Ext(s, a, b) ELSE s
    [] op = "nr" -> [Recv(s, a, r, 0, r) EXCEPT !.ctr = s.ctr + b]
    [] op = "ul" -> LET l == IF s.q[a].lim = 0 THEN 10 + a ELSE s.q[a].lim IN [s EXCEPT !.q[a].lim = l, !.lv[l] = b]
    [] op = "ll" -> [s EXCEPT !.lv[a] = b]
    [] op = "lq" -> [s EXCEPT !.q[a].lim = b]
    [] op = "tz" -> [s EXCEPT !.ctr = @ + b]
    [] OTHER -> s

(* chunk boundaries of "sc" are visible to the caller; the implementation may also have joined neighbours, so "sc" is only used
   where the model and the code agree: the number returned decides how much moved (see ChunkQueueTrace)                        *)

Unique(s) == /\ \A i, j \in Q : i # j => Range(Content(s.q[i].ch)) \cap Range(Content(s.q[j].ch)) = {}
             /\ \A i \in Q : Cardinality(Range(Content(s.q[i].ch))) = QLen(s, i)
Conserved(s) == s.ctr <= 250 => /\ Unique(s)
                                /\ s.app = s.gone \cup UNION {Range(Content(s.q[i].ch)) : i \in Q}
                                /\ \A i \in Q : Range(Content(s.q[i].ch)) \cap s.gone = {}
Accounting(s) == \A i \in Q : s.q[i].bin - s.q[i].bout = QLen(s, i) /\ MemLow(s.q[i]) <= MemHigh(s.q[i])
NoEmptyChunk(s) == \A i \in Q : \A j \in 1..Len(s.q[i].ch) : s.q[i].ch[j].o < Len(s.q[i].ch[j].d)
=============================================================================
