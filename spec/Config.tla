------------------------------- MODULE Config -------------------------------
(* Run-time meaning of a configuration: a program is a sequence of statements executed for one request.
   State: [t (trace env variable), env (function key -> string), tag, handled, status, body, hdr (Seq of marks), rh (response headers, function),
           docroot (BOOLEAN), caps (captures visible now: Seq of strings, <<>> if none)].
   Request: [path, query, host, method, raw, len, remote (Seq of 4 bytes), port, hd (request headers), fs (path -> [kind, size])] *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
Prefix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Suffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
In(c, set) == \E k \in 1..Len(set) : Ch(set, k) = c
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE ""
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* ---- regular expressions: [a (anchored at start), z (anchored at end), it (Seq of [lit] or [cls, min, cap])]; greedy, leftmost, backtracking
RECURSIVE M(_, _, _, _, _)
RECURSIVE Try(_, _, _, _, _, _)
\* result <<ok, end, captures>>
M(rx, i, s, p, caps) ==
    IF i > Len(rx.it) THEN IF rx.z /\ p # Len(s) + 1 THEN <<FALSE, 0, caps>> ELSE <<TRUE, p, caps>>
    ELSE LET x == rx.it[i] IN
         IF x.k = "lit" THEN IF p + Len(x.s) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(x.s) - 1) = x.s THEN M(rx, i + 1, s, p + Len(x.s), caps) ELSE <<FALSE, 0, caps>>
         ELSE LET n == CHOOSE n \in 0..(Len(s) - p + 1) : /\ \A j \in 0..(n - 1) : x.s = "" \/ In(Ch(s, p + j), x.s)
                                                       /\ (n = Len(s) - p + 1 \/ ~(x.s = "" \/ In(Ch(s, p + n), x.s)))
              IN Try(rx, i, s, p, caps, n)
Try(rx, i, s, p, caps, n) ==
    IF n < rx.it[i].min THEN <<FALSE, 0, caps>>
    ELSE LET r == M(rx, i + 1, s, p + n, IF rx.it[i].cap THEN Append(caps, SubSeq(s, p, p + n - 1)) ELSE caps)
         IN IF r[1] THEN r ELSE Try(rx, i, s, p, caps, n - 1)
RECURSIVE From(_, _, _)
From(rx, s, p) == IF p > Len(s) + 1 \/ (rx.a /\ p > 1) THEN [ok |-> FALSE, caps |-> <<>>]
                  ELSE LET r == M(rx, 1, s, p, <<>>) IN IF r[1] THEN [ok |-> TRUE, caps |-> <<SubSeq(s, p, r[2] - 1)>> \o r[3]] ELSE From(rx, s, p + 1)
Match(rx, s) == From(rx, s, 1)

\* ---- condition variables
Pow2(n) == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>[n + 1]
InNet(a, n) == \A i \in 1..4 : LET b == n.bits - 8 * (i - 1) IN IF b >= 8 THEN a[i] = n.addr[i] ELSE IF b <= 0 THEN TRUE ELSE a[i] \div Pow2(8 - b) = n.addr[i] \div Pow2(8 - b)
IpStr(a) == ToString(a[1]) \o "." \o ToString(a[2]) \o "." \o ToString(a[3]) \o "." \o ToString(a[4])
Phys(rq, st) == IF st.docroot THEN rq.root \o rq.path ELSE ""
File(rq, st) == IF st.docroot THEN rq.file ELSE [kind |-> "none", size |-> -1]
IsInt(lv) == lv \in {"length", "localport", "size", "status"}
IsBool(lv) == lv \in {"is_handled", "exists", "is_dir", "is_file"}
IntVal(lv, rq, st) == CASE lv = "length" -> rq.len [] lv = "localport" -> rq.port [] lv = "size" -> File(rq, st).size [] lv = "status" -> st.status
BoolVal(lv, rq, st) == CASE lv = "is_handled" -> st.handled [] lv = "exists" -> File(rq, st).kind # "none" [] lv = "is_dir" -> File(rq, st).kind = "dir" [] lv = "is_file" -> File(rq, st).kind = "file"
StrVal(lv, key, rq, st) == CASE lv = "path" -> rq.path [] lv = "raw_path" -> rq.raw [] lv = "query" -> rq.query [] lv = "host" -> rq.host [] lv = "method" -> rq.method [] lv = "scheme" -> "http"
    [] lv = "remoteip" -> IpStr(rq.remote) [] lv = "header" -> Get(rq.hd, key) [] lv = "env" -> Get(st.env, key) [] lv = "ppath" -> Phys(rq, st) [] lv = "docroot" -> IF st.docroot THEN rq.root ELSE ""
    [] lv = "rheader" -> Get(st.rh, key) [] IsInt(lv) -> ToString(IntVal(lv, rq, st)) [] IsBool(lv) -> IF BoolVal(lv, rq, st) THEN "TRUE" ELSE "FALSE"

Cmp(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b
\* an atom: [lv, key, op, s (string operand), i (int operand), rx, net, ty ("str","int","rx","net","bool")]; result [v, caps]
Atom(x, rq, st) ==
    CASE x.ty = "bool" -> [v |-> BoolVal(x.lv, rq, st), caps |-> st.caps]
      [] x.ty = "int" -> [v |-> Cmp(x.op, IntVal(x.lv, rq, st), x.i), caps |-> st.caps]
      [] x.ty = "net" -> [v |-> (x.op = "=/") = InNet(rq.remote, x.net), caps |-> st.caps]
      [] x.ty = "str" -> LET v == StrVal(x.lv, x.key, rq, st) IN
            [v |-> CASE x.op = "==" -> v = x.s [] x.op = "!=" -> v # x.s [] x.op = "=^" -> Prefix(v, x.s) [] x.op = "!^" -> ~Prefix(v, x.s) [] x.op = "=$" -> Suffix(v, x.s) [] x.op = "!$" -> ~Suffix(v, x.s), caps |-> st.caps]
      [] x.ty = "rx" -> LET m == Match(x.rx, StrVal(x.lv, x.key, rq, st)) IN [v |-> (x.op = "=~") = m.ok, caps |-> IF m.ok THEN m.caps ELSE st.caps]
\* a matching regular expression makes its captures visible to what is evaluated after it, short-circuit left to right
RECURSIVE Ev(_, _, _)
Ev(e, rq, st) ==
    CASE e.k = "atom" -> Atom(e, rq, st)
      [] e.k = "not" -> LET r == Ev(e.l, rq, st) IN [v |-> ~r.v, caps |-> r.caps]
      [] e.k = "and" -> LET r == Ev(e.l, rq, st) IN IF r.v THEN Ev(e.r, rq, [st EXCEPT !.caps = r.caps]) ELSE r
      [] e.k = "or" -> LET r == Ev(e.l, rq, st) IN IF r.v THEN r ELSE Ev(e.r, rq, [st EXCEPT !.caps = r.caps])

\* ---- patterns: Seq of [k "lit", s] | [k "cap", f, t] | [k "var", lv, key]
Capn(caps, n) == IF n + 1 \in 1..Len(caps) THEN caps[n + 1] ELSE ""
RECURSIVE Up(_, _, _)
Up(caps, f, t) == IF f > t \/ f >= Len(caps) THEN "" ELSE caps[f + 1] \o Up(caps, f + 1, t)
RECURSIVE Down(_, _, _)
Down(caps, f, t) == IF f < t THEN "" ELSE Capn(caps, f) \o Down(caps, f - 1, t)
Min(a, b) == IF a < b THEN a ELSE b
Range(caps, f, t) == IF f <= t THEN Up(caps, f, t) ELSE Down(caps, Min(f, Len(caps)), t)
RECURSIVE Pat(_, _, _)
Pat(p, rq, st) == IF p = <<>> THEN "" ELSE
    (CASE p[1].k = "lit" -> p[1].s [] p[1].k = "cap" -> Range(st.caps, p[1].f, p[1].t) [] p[1].k = "var" -> StrVal(p[1].lv, p[1].key, rq, st)) \o Pat(Tail(p), rq, st)

\* ---- statements
RECURSIVE Ex(_, _, _)
RECURSIVE Lookup(_, _)
Lookup(m, v) == IF m = <<>> THEN 0 ELSE IF \E k \in 1..Len(m[1].keys) : m[1].keys[k] = v THEN m[1].n ELSE Lookup(Tail(m), v)
Inner(r, st) == [r EXCEPT !.caps = st.caps]       \* leaving a block restores the captures visible before it
Stmt(x, rq, st) ==
    CASE x.k = "t" -> [st EXCEPT !.env = Put(@, "T", Get(@, "T") \o "<" \o ToString(x.n) \o ":" \o Pat(x.p, rq, st) \o ">")]
      [] x.k = "h" -> [st EXCEPT !.hdr = Append(@, ToString(x.n) \o ":" \o Pat(x.p, rq, st))]
      [] x.k = "env" -> [st EXCEPT !.env = Put(@, x.key, Pat(x.p, rq, st))]
      [] x.k = "rh" -> [st EXCEPT !.rh = Put(@, x.key, Pat(x.p, rq, st))]
      [] x.k = "tag" -> [st EXCEPT !.tag = x.s]
      [] x.k = "docroot" -> [st EXCEPT !.docroot = TRUE]
      [] x.k = "respond" -> IF st.handled THEN st ELSE [st EXCEPT !.handled = TRUE, !.status = x.n, !.body = Pat(x.p, rq, st)]
      [] x.k = "backend" -> IF st.handled THEN st ELSE [st EXCEPT !.handled = TRUE, !.status = x.n, !.body = x.s, !.rh = Put(@, "X-B", x.s)]
      [] x.k = "block" -> Inner(Ex(x.b, rq, st), st)
      [] x.k = "if" -> LET r == Ev(x.c, rq, st) IN Inner(Ex(IF r.v THEN x.b ELSE x.e, rq, [st EXCEPT !.caps = r.caps]), st)
      [] x.k = "map" -> LET n == Lookup(x.m, Pat(x.p, rq, st)) IN IF n # 0 THEN Inner(Ex(x.bs[n], rq, st), st) ELSE IF x.def THEN Inner(Ex(x.bs[Len(x.bs)], rq, st), st) ELSE st
Ex(p, rq, st) == IF p = <<>> THEN st ELSE Ex(Tail(p), rq, Stmt(p[1], rq, st))

St0 == [env |-> [x \in {"T"} |-> ""], tag |-> "", handled |-> FALSE, status |-> 0, body |-> "", hdr |-> <<>>, rh |-> [x \in {} |-> ""], docroot |-> FALSE, caps |-> <<>>]
Run(p, rq) == Ex(p, rq, St0)
=============================================================================
