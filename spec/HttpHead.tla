------------------------------ MODULE HttpHead ------------------------------
(* The request head as the server has to read it: a byte automaton (one step
   per byte) and the rules a complete head must satisfy.  Bytes are integers.
   Elements of a stream may carry a weight (a run of one repeated byte), which
   only matters for the length limits.                                        *)
EXTENDS Naturals, Sequences, FiniteSets

CR == 13  LF == 10  SP == 32  HT == 9  DQ == 34  BS == 92
CTL == (0..31) \cup {127}
Upper == 65..90
Lower == 97..122
Digit == 48..57
Hex == Digit \cup (65..70) \cup (97..102)
\* ( ) < > @ , ; : \ " / [ ] ? = { } SP HT
Separators == {40,41,60,62,64,44,59,58,92,34,47,91,93,63,61,123,125,32,9}
TokenChar == (0..255) \ (Separators \cup CTL)
UriChar == (0..255) \ (CTL \cup {SP})

low(c) == IF c \in Upper THEN c + 32 ELSE c
Down(s) == [i \in 1..Len(s) |-> low(s[i])]

-----------------------------------------------------------------------------
(* the automaton: next mode for (mode, byte); "bad" is absorbing, "end" final  *)
VerLit == <<72, 84, 84, 80, 47>>      \* HTTP/
Value(c) ==                          \* inside a field value, outside quotes
  CASE c = CR -> "vcr" [] c = LF -> "vnl" [] c = DQ -> "quote"
    [] c = HT -> "val" [] c \in CTL -> "bad" [] OTHER -> "val"
Quote(c) ==
  CASE c = DQ -> "val" [] c = BS -> "qpair" [] c = CR -> "qcr" [] c = LF -> "qnl"
    [] c = HT -> "quote" [] c \in CTL -> "bad" [] OTHER -> "quote"
LineStart(c) ==
  CASE c = CR -> "endcr" [] c = LF -> "end" [] c \in TokenChar -> "key" [] OTHER -> "bad"

Delta(m, c) ==
  CASE m = "start"  -> (CASE c = CR -> "startcr" [] c = LF -> "start" [] c \in TokenChar -> "method" [] OTHER -> "bad")
    [] m = "startcr" -> IF c = LF THEN "start" ELSE "bad"
    [] m = "method" -> (CASE c \in TokenChar -> "method" [] c = SP -> "uri0" [] OTHER -> "bad")
    [] m = "uri0"   -> IF c \in UriChar THEN "uri" ELSE "bad"
    [] m = "uri"    -> (CASE c \in UriChar -> "uri" [] c = SP -> "v1" [] OTHER -> "bad")
    [] m = "v1" -> IF c = VerLit[1] THEN "v2" ELSE "bad"
    [] m = "v2" -> IF c = VerLit[2] THEN "v3" ELSE "bad"
    [] m = "v3" -> IF c = VerLit[3] THEN "v4" ELSE "bad"
    [] m = "v4" -> IF c = VerLit[4] THEN "v5" ELSE "bad"
    [] m = "v5" -> IF c = VerLit[5] THEN "maj0" ELSE "bad"
    [] m = "maj0" -> IF c \in Digit THEN "maj" ELSE "bad"
    [] m = "maj"  -> (CASE c \in Digit -> "maj" [] c = 46 -> "min0" [] OTHER -> "bad")
    [] m = "min0" -> IF c \in Digit THEN "min" ELSE "bad"
    [] m = "min"  -> (CASE c \in Digit -> "min" [] c = CR -> "linecr" [] c = LF -> "line" [] OTHER -> "bad")
    [] m = "linecr" -> IF c = LF THEN "line" ELSE "bad"
    [] m = "line" -> LineStart(c)
    [] m = "key"  -> (CASE c \in TokenChar -> "key" [] c = 58 -> "ows" [] OTHER -> "bad")
    [] m = "ows"  -> IF c \in {SP, HT} THEN "ows" ELSE Value(c)
    [] m = "val"  -> Value(c)
    [] m = "vcr"  -> IF c = LF THEN "vnl" ELSE "bad"
    [] m = "vnl"  -> IF c \in {SP, HT} THEN "val" ELSE LineStart(c)   \* continuation line or next line
    [] m = "quote" -> Quote(c)
    [] m = "qpair" -> IF c \in (0..127) \ CTL THEN "quote" ELSE "bad"
    [] m = "qcr"  -> IF c = LF THEN "qnl" ELSE "bad"
    [] m = "qnl"  -> IF c \in {SP, HT} THEN "quote" ELSE "bad"
    [] m = "endcr" -> IF c = LF THEN "end" ELSE "bad"
    [] OTHER -> m
Modes == {"start","startcr","method","uri0","uri","v1","v2","v3","v4","v5","maj0","maj","min0","min","linecr","line","key","ows","val","vcr","vnl","quote","qpair","qcr","qnl","endcr","end","bad"}

(* fields are kept as index intervals into the stream:
   f = [ms, me, us, ue, vs, ve : first/last index, hs : Seq of [ks, ke, vs, ve]] *)
NoFields == [ms |-> 0, me |-> 0, us |-> 0, ue |-> 0, vs |-> 0, ve |-> 0, hs |-> <<>>]
InVal == {"val", "quote", "qpair", "qcr", "qnl", "vcr"}
Mark(f, m, n, i) ==
  CASE n = "method" -> [f EXCEPT !.ms = IF m = "method" THEN @ ELSE i, !.me = i]
    [] n = "uri" -> [f EXCEPT !.us = IF m = "uri" THEN @ ELSE i, !.ue = i]
    [] n = "v2" -> [f EXCEPT !.vs = i]
    [] n = "min" -> [f EXCEPT !.ve = i]
    [] n = "key" -> IF m = "key" THEN [f EXCEPT !.hs[Len(f.hs)].ke = i]
                    ELSE [f EXCEPT !.hs = Append(@, [ks |-> i, ke |-> i, vs |-> 0, ve |-> 0])]
    [] n \in {"val", "quote", "qpair"} ->      \* a value starts at its first non blank byte; trailing blanks are cut later
         [f EXCEPT !.hs[Len(f.hs)].vs = IF @ = 0 THEN i ELSE @, !.hs[Len(f.hs)].ve = i]
    [] n = "vcr" \/ n = "vnl" \/ n = "qcr" \/ n = "qnl" -> [f EXCEPT !.hs[Len(f.hs)].vs = IF @ = 0 THEN i ELSE @]
    [] OTHER -> f

-----------------------------------------------------------------------------
(* generic helpers on byte sequences *)
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ s[Len(s)] \in {CR, LF, SP} THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LStrip0(_)
LStrip0(s) == IF s # <<>> /\ s[1] = 48 THEN LStrip0(Tail(s)) ELSE s
RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLE(Tail(a), Tail(b))
All(s, S) == \A i \in 1..Len(s) : s[i] \in S
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Find(s, c) == LET I == {i \in 1..Len(s) : s[i] = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* %XX must be complete wherever pct-encoding is the only use of '%'
PctOk(s) == \A i \in 1..Len(s) : s[i] = 37 => i + 2 <= Len(s) /\ s[i+1] \in Hex /\ s[i+2] \in Hex
MaxI64 == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
FitsI64(d) == LET z == LStrip0(d) IN Len(z) < 19 \/ (Len(z) = 19 /\ LexLE(z, MaxI64))

-----------------------------------------------------------------------------
(* hosts and request targets *)
Alnum == Upper \cup Lower \cup Digit
Unreserved == Alnum \cup {45, 46, 95, 126}
SubDelims == {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
RegName(s) == s # <<>> /\ All(s, Unreserved \cup SubDelims \cup {37}) /\ PctOk(s)
RECURSIVE Split(_, _)
Split(s, c) == LET i == Find(s, c) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
DottedQuad(s) == LET p == Split(s, 46) IN Len(p) = 4 /\ \A i \in 1..4 : Len(p[i]) \in 1..3 /\ All(p[i], Digit)
IPv6Like(s) ==      \* loose, as the server's grammar is
  \/ s # <<>> /\ All(s, Hex \cup {58})
  \/ \E i \in 1..(Len(s) - 1) : All(SubSeq(s, 1, i), Hex \cup {58}) /\ DottedQuad(SubSeq(s, i + 1, Len(s)))
IPvFuture(s) == /\ Len(s) >= 4 /\ s[1] = 118
                /\ LET i == Find(s, 46) IN i > 2 /\ i < Len(s) /\ All(SubSeq(s, 2, i - 1), Hex)
                     /\ All(SubSeq(s, i + 1, Len(s)), Unreserved \cup SubDelims \cup {58})
IPLiteral(s) == Len(s) >= 3 /\ s[1] = 91 /\ s[Len(s)] = 93
                /\ LET b == SubSeq(s, 2, Len(s) - 1) IN IPv6Like(b) \/ IPvFuture(b)
Host(s) == IPLiteral(s) \/ RegName(s)            \* (a dotted quad is a reg-name too)
\* host [":" port]: the possible splits (host part), {} if malformed
HostPart(s) ==
  IF s # <<>> /\ s[1] = 91
  THEN LET j == Find(s, 93) h == SubSeq(s, 1, j) r == SubSeq(s, j + 1, Len(s)) IN
       IF j > 0 /\ IPLiteral(h) /\ (r = <<>> \/ (r[1] = 58 /\ Len(r) > 1 /\ All(Tail(r), Digit))) THEN <<h>> ELSE <<>>
  ELSE LET j == Find(s, 58) IN
       IF j = 0 THEN (IF RegName(s) THEN <<s>> ELSE <<>>)
       ELSE IF RegName(SubSeq(s, 1, j - 1)) /\ j < Len(s) /\ All(SubSeq(s, j + 1, Len(s)), Digit) THEN <<SubSeq(s, 1, j - 1)>> ELSE <<>>
\* authority = [userinfo "@"] host [":" port]
AuthHost(s) ==
  LET j == Find(s, 64) IN
  IF j = 0 THEN HostPart(s)
  ELSE LET u == SubSeq(s, 1, j - 1) IN
       IF All(u, Unreserved \cup SubDelims \cup {37, 58}) /\ PctOk(u) THEN HostPart(SubSeq(s, j + 1, Len(s))) ELSE <<>>
PChar == (33..126) \ {47, 63, 35}      \* everything printable but / ? #
\* origin-form: path, query (with hasq), the fragment is ignored
OriginOk(s) == /\ s # <<>> /\ s[1] = 47
               /\ Cardinality({i \in 1..Len(s) : s[i] = 35}) <= 1
               /\ All(s, PChar \cup {47, 63, 35})
Http == <<104,116,116,112,58,47,47>>
Https == <<104,116,116,112,115,58,47,47>>
\* result: [ok, host (Seq of 0 or 1 hosts), target (origin form)]
Target(u) ==
  LET p == CASE StartsWith(u, Http) -> Len(Http) [] StartsWith(u, Https) -> Len(Https) [] OTHER -> 0
      r == SubSeq(u, p + 1, Len(u)) IN
  IF u = <<42>> THEN [ok |-> TRUE, host |-> <<>>, target |-> u]
  ELSE IF p = 0 THEN [ok |-> OriginOk(u), host |-> <<>>, target |-> u]
  ELSE LET j == Find(r, 47) IN
       IF j <= 1 THEN [ok |-> FALSE, host |-> <<>>, target |-> <<>>]
       ELSE LET h == AuthHost(SubSeq(r, 1, j - 1)) t == SubSeq(r, j, Len(r)) IN
            [ok |-> h # <<>> /\ OriginOk(t), host |-> h, target |-> t]

-----------------------------------------------------------------------------
(* rules for a complete head; Viol = set of statuses of all violated rules *)
S(str) == str
HOST == <<104,111,115,116>>
CLEN == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
TENC == <<116,114,97,110,115,102,101,114,45,101,110,99,111,100,105,110,103>>
EXPECT == <<101,120,112,101,99,116>>
CHUNKED == <<99,104,117,110,107,101,100>>
IDENTITY == <<105,100,101,110,116,105,116,121>>
CONT100 == <<49,48,48,45,99,111,110,116,105,110,117,101>>
GET == <<71,69,84>>  HEAD == <<72,69,65,68>>  POST == <<80,79,83,84>>  OPTIONS == <<79,80,84,73,79,78,83>>

\* a parsed request: [method, uri, ver, hs : Seq of [k (lower case), v]]
Parsed(bytes, f) ==
  [method |-> SubSeq(bytes, f.ms, f.me), uri |-> SubSeq(bytes, f.us, f.ue), ver |-> SubSeq(bytes, f.vs, f.ve),
   hs |-> [i \in 1..Len(f.hs) |-> [k |-> Down(SubSeq(bytes, f.hs[i].ks, f.hs[i].ke)),
                                   v |-> IF f.hs[i].ve = 0 THEN <<>> ELSE RStrip(SubSeq(bytes, f.hs[i].vs, f.hs[i].ve))]]]
RECURSIVE Values(_, _)
Values(hs, k) == IF hs = <<>> THEN <<>> ELSE (IF hs[1].k = k THEN <<hs[1].v>> ELSE <<>>) \o Values(Tail(hs), k)

Is10(q) == q.ver = <<72,84,84,80,47,49,46,48>>
Is11(q) == q.ver = <<72,84,84,80,47,49,46,49>>
Rule(b, status) == IF b THEN {status} ELSE {}
Viol(q, headlen, urilen) ==
  LET hosts == Values(q.hs, HOST)
      cls == Values(q.hs, CLEN)
      tes == Values(q.hs, TENC)
      exs == Values(q.hs, EXPECT)
      tgt == Target(q.uri)
      chunked == \E i \in 1..Len(tes) : Down(tes[i]) = CHUNKED
      clok == Len(cls) = 1 /\ cls[1] # <<>> /\ All(cls[1], Digit)
  IN Rule(headlen > 65536, 413)
     \cup Rule(urilen > 8192, 414)
     \cup Rule(~Is10(q) /\ ~Is11(q), 505)
     \cup Rule(Len(hosts) > 1, 400)
     \cup Rule(Is11(q) /\ (hosts = <<>> \/ \E i \in 1..Len(hosts) : hosts[i] = <<>>), 400)
     \cup Rule(~tgt.ok, 400)
     \cup Rule(q.uri = <<42>> /\ q.method # OPTIONS, 400)
     \* the Host header only counts when the target does not name a host
     \cup Rule(tgt.host = <<>> /\ \E i \in 1..Len(hosts) : hosts[i] # <<>> /\ HostPart(Down(hosts[i])) = <<>>, 400)
     \cup Rule(Len(cls) > 0 /\ ~clok, 400)
     \cup Rule(clok /\ ~FitsI64(cls[1]), 413)
     \cup Rule(Cardinality({i \in 1..Len(tes) : Down(tes[i]) = CHUNKED}) > 1, 400)
     \cup Rule(\E i \in 1..Len(tes) : Down(tes[i]) \notin {CHUNKED, IDENTITY}, 501)
     \cup Rule(\E i \in 1..Len(exs) : Down(exs[i]) # CONT100, 417)
     \cup Rule(exs # <<>> /\ Is10(q), 417)
     \cup Rule(q.method \in {GET, HEAD} /\ (chunked \/ (clok /\ LStrip0(cls[1]) # <<>>)), 400)
     \cup Rule(q.method = POST /\ cls = <<>> /\ ~chunked, 411)
=============================================================================
