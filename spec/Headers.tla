------------------------------ MODULE Headers ------------------------------
(* Header lists and the environment of a request, and the statements that edit them.
   A list is a sequence of [n |-> name, k |-> lower case name, v |-> value]; st = [rq, rs, env].
   A statement is [op, tab, n, k, pat]: op in add, append, overwrite, remove, clear; tab in rq, rs, env.
   A pattern is a sequence of parts [t, x]: t in lit, enc-path, path, query, rq, rs, env. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
HCh(s, i) == SubSeq(s, i, i)
Brk(c) == c \in {"\r", "\n"}
Blank(c) == c \in {" ", "\t"}
\* a value never spans lines: a line break and the blanks after it become one blank; at the end they are dropped
RECURSIVE FoldFrom(_, _, _)
FoldFrom(s, i, f) == IF i > Len(s) THEN ""
                     ELSE LET c == HCh(s, i) IN
                          IF Brk(c) THEN FoldFrom(s, i + 1, TRUE)
                          ELSE IF Blank(c) /\ f THEN FoldFrom(s, i + 1, TRUE)
                          ELSE (IF f THEN " " ELSE "") \o c \o FoldFrom(s, i + 1, FALSE)
Fold(s) == IF \E i \in 1..Len(s) : Brk(HCh(s, i)) THEN FoldFrom(s, 1, FALSE) ELSE s
RECURSIVE LTrim(_)
LTrim(s) == IF s # "" /\ Blank(HCh(s, 1)) THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ Blank(HCh(s, Len(s))) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
Line(n, k, v) == [n |-> n, k |-> k, v |-> Fold(v)]
Named(l, k) == {i \in 1..Len(l) : l[i].k = k}
Last(l, k) == CHOOSE i \in Named(l, k) : \A j \in Named(l, k) : j <= i
RECURSIVE JoinAll(_, _)
JoinAll(vs, acc) == IF vs = <<>> THEN acc ELSE JoinAll(SubSeq(vs, 2, Len(vs)), IF acc = "" THEN vs[1] ELSE acc \o ", " \o vs[1])
All(l, k) == LET m == SelectSeq(l, LAMBDA h : h.k = k) IN JoinAll([i \in 1..Len(m) |-> m[i].v], "")
RECURSIVE Eval(_, _, _)
Part(st, p) == CASE p.t = "lit" -> p.x
                 [] p.t = "path" -> st.path
                 [] p.t = "epath" -> st.epath
                 [] p.t = "query" -> st.query
                 [] p.t = "rq" -> All(st.rq, p.x)
                 [] p.t = "rs" -> All(st.rs, p.x)
                 [] p.t = "env" -> IF p.x \in DOMAIN st.env THEN st.env[p.x] ELSE ""
Eval(st, pat, i) == IF i > Len(pat) THEN "" ELSE Part(st, pat[i]) \o Eval(st, pat, i + 1)
Edit(l, s, v) == CASE s.op = "add" -> Append(l, Line(s.n, s.k, v))
                   [] s.op = "append" -> IF Named(l, s.k) = {} THEN Append(l, Line(s.n, s.k, v)) ELSE [l EXCEPT ![Last(l, s.k)].v = Fold(@ \o ", " \o v)]
                   [] s.op = "overwrite" -> IF Named(l, s.k) = {} THEN Append(l, Line(s.n, s.k, v)) ELSE [l EXCEPT ![Last(l, s.k)].v = Fold(v)]
                   [] s.op = "remove" -> SelectSeq(l, LAMBDA h : h.k # s.k)
EnvEdit(e, s, v) == CASE s.op = "set" -> (s.n :> v) @@ e
                      [] s.op = "add" -> IF s.n \in DOMAIN e THEN e ELSE (s.n :> v) @@ e
                      [] s.op = "remove" -> [x \in DOMAIN e \ {s.n} |-> e[x]]
                      [] s.op = "clear" -> <<>>
Apply(st, s) == LET v == Eval(st, s.pat, 1) IN
                CASE s.tab = "rq" -> [st EXCEPT !.rq = Edit(@, s, v)]
                  [] s.tab = "rs" -> [st EXCEPT !.rs = Edit(@, s, v)]
                  [] s.tab = "env" -> [st EXCEPT !.env = EnvEdit(@, s, v)]
RECURSIVE Run(_, _, _)
Run(st, prog, i) == IF i > Len(prog) THEN st ELSE Run(Apply(st, prog[i]), prog, i + 1)
=============================================================================
