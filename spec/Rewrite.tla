------------------------------ MODULE Rewrite ------------------------------
(* rewrite, rewrite_raw and redirect: rules are tried in order, the first regular expression that matches decides; the target is a pattern
   built from captures of the rule ($n), captures of the enclosing condition (%n), request variables and literals.
   Strings are byte sequences.  State: [path, query, raw, status (0: not answered), loc (with here, tail: the parts of a relative one), caps (captures of the enclosing condition)].   *)
EXTENDS Url, FiniteSets

\* ---- regular expressions over bytes: [a, z, it (Seq of [k "lit", s] | [k "cls", s (<<>>: any byte), min, cap])]; greedy, leftmost, backtracking
InCls(x, b) == x.s = <<>> \/ \E k \in 1..Len(x.s) : x.s[k] = b
RECURSIVE RxM(_, _, _, _, _)
RECURSIVE RxTry(_, _, _, _, _, _)
RECURSIVE RxRun(_, _, _, _)
RxRun(x, s, p, n) == IF p + n <= Len(s) /\ InCls(x, s[p + n]) THEN RxRun(x, s, p, n + 1) ELSE n
RxM(rx, i, s, p, caps) ==
    IF i > Len(rx.it) THEN IF rx.z /\ p # Len(s) + 1 THEN <<FALSE, 0, caps>> ELSE <<TRUE, p, caps>>
    ELSE LET x == rx.it[i] IN
         IF x.k = "lit" THEN IF p + Len(x.s) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(x.s) - 1) = x.s THEN RxM(rx, i + 1, s, p + Len(x.s), caps) ELSE <<FALSE, 0, caps>>
         ELSE RxTry(rx, i, s, p, caps, RxRun(x, s, p, 0))
RxTry(rx, i, s, p, caps, n) ==
    IF n < rx.it[i].min THEN <<FALSE, 0, caps>>
    ELSE LET r == RxM(rx, i + 1, s, p + n, IF rx.it[i].cap THEN Append(caps, SubSeq(s, p, p + n - 1)) ELSE caps)
         IN IF r[1] THEN r ELSE RxTry(rx, i, s, p, caps, n - 1)
RECURSIVE RxFrom(_, _, _)
RxFrom(rx, s, p) == IF p > Len(s) + 1 \/ (rx.a /\ p > 1) THEN [ok |-> FALSE, caps |-> <<>>]
                    ELSE LET r == RxM(rx, 1, s, p, <<>>) IN IF r[1] THEN [ok |-> TRUE, caps |-> <<SubSeq(s, p, r[2] - 1)>> \o r[3]] ELSE RxFrom(rx, s, p + 1)
RxMatch(rx, s) == RxFrom(rx, s, 1)

\* ---- URI encoding of a path: ! ( ) * - . / 0-9 A-Z _ a-z stay, everything else becomes %xx
Keep == {33, 40, 41, 42, 45, 46, 47, 95} \cup 48..57 \cup 65..90 \cup 97..122
HexDig(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Enc(_)
Enc(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in Keep THEN <<s[1]>> ELSE <<Pct, HexDig(s[1] \div 16), HexDig(s[1] % 16)>>) \o Enc(Tail(s))

\* ---- patterns: Seq of [k "lit", s] | [k "cap"/"prev", f, t] | [k "var", v, enc]; captures beyond the last are empty; f > t counts down
RECURSIVE CapsUp(_, _, _)
CapsUp(caps, f, t) == IF f > t \/ f >= Len(caps) THEN <<>> ELSE caps[f + 1] \o CapsUp(caps, f + 1, t)
RECURSIVE CapsDown(_, _, _)
CapsDown(caps, f, t) == IF f < t \/ f < 0 THEN <<>> ELSE caps[f + 1] \o CapsDown(caps, f - 1, t)
Caps(caps, f, t) == IF f <= t THEN CapsUp(caps, f, t) ELSE CapsDown(caps, IF f >= Len(caps) THEN Len(caps) - 1 ELSE f, t)
Var(v, rq, st) == CASE v = "path" -> st.path [] v = "query" -> st.query [] v = "raw" -> st.raw [] v = "host" -> rq.host [] v = "hdr" -> rq.hdr
Part(x, rq, st, caps) == CASE x.k = "lit" -> x.s [] x.k = "cap" -> Caps(caps, x.f, x.t) [] x.k = "prev" -> Caps(st.caps, x.f, x.t)
                           [] x.k = "var" -> IF x.enc THEN Enc(Var(x.v, rq, st)) ELSE Var(x.v, rq, st)
RECURSIVE Pat(_, _, _, _)
Pat(p, rq, st, caps) == IF p = <<>> THEN <<>> ELSE Part(p[1], rq, st, caps) \o Pat(Tail(p), rq, st, caps)

\* ---- rules: [has (a regular expression is given), rx, ...target]; the first that matches
Hit(r, s) == IF r.has THEN RxMatch(r.rx, s) ELSE [ok |-> TRUE, caps |-> <<>>]
RECURSIVE First(_, _, _)
First(rules, s, i) == IF i > Len(rules) THEN [n |-> 0, caps |-> <<>>] ELSE LET h == Hit(rules[i], s) IN IF h.ok THEN [n |-> i, caps |-> h.caps] ELSE First(rules, s, i + 1)

RECURSIVE LStripSp(_)
LStripSp(s) == IF s # <<>> /\ s[1] = 32 THEN LStripSp(Tail(s)) ELSE s
RECURSIVE RStripSp(_)
RStripSp(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN RStripSp(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* rewrite: matches the decoded path; a target with "?" replaces the query, any other keeps it; raw_path is rebuilt from the two
DoRewrite(x, rq, st) ==
    LET h == First(x.rules, st.path, 1) IN
    IF h.n = 0 THEN st
    ELSE LET r == x.rules[h.n]
             q == IF r.hasq THEN Pat(r.q, rq, st, h.caps) ELSE st.query
             p == Simplify(LStripSp(Pat(r.p, rq, st, h.caps)))
         IN [st EXCEPT !.path = p, !.query = q, !.raw = Enc(p) \o (IF q = <<>> THEN <<>> ELSE <<63>> \o q)]
\* rewrite_raw: matches the raw path, the result is taken apart as if the client had sent it
RawOk(s) == s # <<>> /\ s[1] = Slash /\ (\A i \in 1..Len(s) : s[i] \in 32..126) /\ Cardinality({i \in 1..Len(s) : s[i] = 35}) <= 1
DoRaw(x, rq, st) ==
    LET h == First(x.rules, st.raw, 1) IN
    IF h.n = 0 THEN st
    ELSE LET t == Pat(x.rules[h.n].p, rq, st, h.caps) IN
         IF ~RawOk(t) THEN [st EXCEPT !.status = 500]
         ELSE [st EXCEPT !.path = Path(t), !.query = Query(t), !.raw = NoFrag(t)]
\* redirect: to an absolute URI ("abs"), a path on this host ("path"), a name in the directory of the current path ("rel"), another query ("query")
DirOf(p) == SubSeq(p, 1, LastSlash(p))
Here(r, st) == IF r.ty = "rel" THEN DirOf(st.path) ELSE st.path
DoRedirect(x, rq, st) ==
    LET h == First(x.rules, st.path, 1) IN
    IF st.status # 0 \/ h.n = 0 THEN st
    ELSE LET r == x.rules[h.n]
             t == Pat(r.p, rq, st, h.caps)
         IN [st EXCEPT !.status = 301, !.loc = CASE r.ty = "abs" -> t [] r.ty = "path" -> rq.origin \o t [] OTHER -> rq.origin \o Enc(Here(r, st)) \o t,
                               !.here = IF r.ty \in {"rel", "query"} THEN Here(r, st) ELSE <<>>, !.tail = IF r.ty \in {"rel", "query"} THEN t ELSE <<>>]
\* the part of the location that repeats the current path may be escaped in any way that denotes it
LocOk(rq, st, l0) == LET l == IF st.tail # <<>> /\ st.tail[Len(st.tail)] = 32 THEN l0 \o SubSeq(st.tail, Len(RStripSp(st.tail)) + 1, Len(st.tail)) ELSE l0 IN
    IF st.here = <<>> THEN RStripSp(l) = RStripSp(st.loc)      \* (white space at the end of a field is not part of it)
    ELSE LET n == Len(rq.origin) k == Len(l) - Len(st.tail) e == SubSeq(l, n + 1, k) IN
         /\ k >= n /\ SubSeq(l, 1, n) = rq.origin /\ SubSeq(l, k + 1, Len(l)) = st.tail
         /\ Decode(e) = st.here /\ \A i \in 1..Len(e) : e[i] \in 33..126 /\ e[i] \notin {35, 63}

RECURSIVE Exec(_, _, _)
Act(x, rq, st) ==
    CASE x.k = "rewrite" -> DoRewrite(x, rq, st)
      [] x.k = "raw" -> DoRaw(x, rq, st)
      [] x.k = "redirect" -> DoRedirect(x, rq, st)
      [] x.k = "mark" -> [st EXCEPT !.marks = Append(@, Pat(x.p, rq, st, <<>>))]
      [] x.k = "if" -> LET m == RxMatch(x.rx, Var(x.v, rq, st)) IN IF m.ok THEN [Exec(x.b, rq, [st EXCEPT !.caps = m.caps]) EXCEPT !.caps = st.caps] ELSE st
\* an error answer (a raw rewrite to something that is no request target) ends the request
Exec(p, rq, st) == IF p = <<>> \/ st.status = 500 THEN st ELSE Exec(Tail(p), rq, Act(p[1], rq, st))

Start(rq) == [path |-> Path(rq.t), query |-> Query(rq.t), raw |-> NoFrag(rq.t), status |-> 0, loc |-> <<>>, here |-> <<>>, tail |-> <<>>, caps |-> <<>>, marks |-> <<>>]
RunRw(p, rq) == Exec(p, rq, Start(rq))
=============================================================================
