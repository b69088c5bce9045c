------------------------------- MODULE Vhost -------------------------------
(* From host and path to the document root and the file: vhost.map, vhost.map_regex, docroot, alias, userdir.
   Strings are byte sequences.  A request: [h (what the client sent as host, with port), path].
   State: [dr (document root), ph (physical path), path, tags (blocks passed), status (0: not answered), free (dr is not specified), wild (nothing is)].  *)
EXTENDS Rewrite
\* host name: without port, lower case, without dots at the end
RECURSIVE NoDots(_)
NoDots(h) == IF h # <<>> /\ h[Len(h)] = Dot THEN NoDots(SubSeq(h, 1, Len(h) - 1)) ELSE h
Name(h) == NoDots(Down(HostPart(h)[1]))

\* labels, counted from the top level; empty ones do not count
Labels(h) == SelectSeq(Split(h, Dot), LAMBDA x : x # <<>>)
Nth(L, i) == L[Len(L) + 1 - i]
RECURSIVE JoinUp(_, _, _)
JoinUp(L, f, t) == IF f > t THEN <<>> ELSE Nth(L, f) \o (IF f < t THEN <<Dot>> ELSE <<>>) \o JoinUp(L, f + 1, t)
RECURSIVE JoinDown(_, _, _)
JoinDown(L, f, t) == IF f < t THEN <<>> ELSE Nth(L, f) \o (IF f > t THEN <<Dot>> ELSE <<>>) \o JoinDown(L, f - 1, t)
\* $[f-t]: 0 means the whole name; otherwise the labels t down to f (so that [1-2] of a.b.c is b.c), or f down to t written backwards; 1000: the last
Over(L, i) == i # 1000 /\ i > Len(L)
CutL(L, i) == IF i > Len(L) THEN Len(L) ELSE i
NthHost(h, f, t) == LET L == Labels(h) IN
    IF h = <<>> \/ L = <<>> THEN IF f = 0 \/ t = 0 THEN h ELSE <<>>
    ELSE IF f = 0 \/ t = 0 THEN h
    ELSE IF f <= t THEN JoinDown(L, CutL(L, t), CutL(L, f)) ELSE JoinUp(L, CutL(L, t), CutL(L, f))
\* what a number beyond the last label means is not specified
Unspec(h, p) == \E k \in 1..Len(p) : p[k].k = "cap" /\ p[k].f # 0 /\ p[k].t # 0 /\ Labels(h) # <<>> /\ (Over(Labels(h), p[k].f) \/ Over(Labels(h), p[k].t))
RECURSIVE DocPat(_, _, _)
DocPat(p, h, caps) == IF p = <<>> THEN <<>> ELSE
    (CASE p[1].k = "lit" -> p[1].s [] p[1].k = "cap" -> NthHost(h, p[1].f, p[1].t) [] p[1].k = "prev" -> Caps(caps, p[1].f, p[1].t)) \o DocPat(Tail(p), h, caps)

\* repeated slashes mean one
RECURSIVE OneSlash(_)
OneSlash(s) == IF Len(s) < 2 THEN s ELSE (IF s[1] = Slash /\ s[2] = Slash THEN <<>> ELSE <<s[1]>>) \o OneSlash(Tail(s))
NoEnd(s) == IF Len(s) > 1 /\ s[Len(s)] = Slash THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Same(a, b) == OneSlash(a) = OneSlash(b)
IsDir(W, s) == \E i \in 1..Len(W.dirs) : W.dirs[i] = NoEnd(OneSlash(s))

\* docroot: the first pattern that gives an existing directory, or the last
RECURSIVE DocRoot(_, _, _, _, _)
DocRoot(W, ps, h, caps, i) == IF i = Len(ps) \/ IsDir(W, DocPat(ps[i], h, caps)) THEN i ELSE DocRoot(W, ps, h, caps, i + 1)
DoDoc(W, x, h, st) == LET i == DocRoot(W, x.p, h, st.caps, 1) d == DocPat(x.p[i], h, st.caps) IN
    [st EXCEPT !.dr = d, !.ph = d \o st.path, !.free = \E j \in 1..Len(x.p) : Unspec(h, x.p[j])]
\* alias: the first prefix, ending at a segment
Pre(a) == IF a # <<>> /\ a[Len(a)] = Slash THEN SubSeq(a, 1, Len(a) - 1) ELSE a
Under(pre, p) == Len(pre) <= Len(p) /\ SubSeq(p, 1, Len(pre)) = pre /\ (Len(p) = Len(pre) \/ p[Len(pre) + 1] = Slash)
DoAliasV(x, h, st) == LET I == {i \in 1..Len(x.r) : Under(Pre(x.r[i].a), st.path)} IN
    IF I = {} THEN st
    ELSE LET i == CHOOSE i \in I : \A j \in I : i <= j
             d == DocPat(x.r[i].p, h, st.caps)
         IN [st EXCEPT !.dr = d, !.ph = d \o SubSeq(st.path, Len(Pre(x.r[i].a)) + 1, Len(st.path)), !.free = Unspec(h, x.r[i].p)]
\* userdir: parts lit s | user | let n
UserOf(p) == IF ~(Len(p) > 2 /\ p[1] = Slash /\ p[2] = 126) THEN <<>> ELSE LET I == {i \in 3..Len(p) : p[i] = Slash} e == IF I = {} THEN Len(p) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j IN SubSeq(p, 3, e - 1)
UserOk(u) == u # <<>> /\ \A i \in 1..Len(u) : u[i] \in 48..57 \cup 65..90 \cup 97..122 \cup {95, 45}
RECURSIVE UserPat(_, _)
UserPat(p, u) == IF p = <<>> THEN <<>> ELSE (CASE p[1].k = "lit" -> p[1].s [] p[1].k = "user" -> u [] p[1].k = "let" -> IF p[1].n <= Len(u) THEN <<u[p[1].n]>> ELSE <<>>) \o UserPat(Tail(p), u)
Root == <<114, 111, 111, 116>>
Home(W, u) == LET I == {i \in 1..Len(W.users) : W.users[i].u = u} IN IF I = {} THEN <<>> ELSE W.users[CHOOSE i \in I : TRUE].home
DoUser(W, x, st) == LET u == UserOf(st.path) rest == SubSeq(st.path, Len(u) + 3, Len(st.path)) abs == x.p[1].k = "lit" /\ x.p[1].s[1] = Slash IN
    IF ~UserOk(u) THEN st
    ELSE IF ~abs /\ u = Root THEN [st EXCEPT !.status = IF @ = 0 THEN 403 ELSE @, !.dr = <<>>]
    ELSE IF ~abs /\ Home(W, u) = <<>> THEN [st EXCEPT !.status = IF @ = 0 THEN 404 ELSE @, !.dr = <<>>]
    ELSE LET d == (IF abs THEN <<>> ELSE Home(W, u) \o <<Slash>>) \o UserPat(x.p, u)
             named == ~abs \/ \E k \in 1..Len(x.p) : x.p[k].k = "user"
             dd == (IF named THEN d ELSE d \o <<Slash>> \o u) \o <<Slash>>
         IN [st EXCEPT !.dr = dd, !.ph = dd \o rest, !.path = IF rest = <<>> THEN <<Slash>> ELSE rest, !.free = FALSE, !.wild = @ \/ u = Root]

RECURSIVE VExec(_, _, _, _)
Block(W, bs, i, h, st) == VExec(W, bs[i], h, st)
DoMap(W, x, h, st) ==
    LET I == {i \in 1..Len(x.r) : IF x.k = "map" THEN x.r[i].h = h ELSE RxMatch(x.r[i].rx, h).ok} IN
    IF I # {} THEN VExec(W, x.r[CHOOSE i \in I : \A j \in I : i <= j].b, h, st)
    ELSE IF x.hasd THEN VExec(W, x.d, h, st) ELSE st
VAct(W, x, h, st) ==
    CASE x.k \in {"map", "mapre"} -> DoMap(W, x, h, st)
      [] x.k = "docroot" -> DoDoc(W, x, h, st)
      [] x.k = "alias" -> DoAliasV(x, h, st)
      [] x.k = "userdir" -> DoUser(W, x, st)
      [] x.k = "mark" -> [st EXCEPT !.tags = Append(@, x.n)]
      [] x.k = "if" -> LET m == RxMatch(x.rx, IF x.v = "host" THEN h ELSE st.path) IN IF m.ok THEN [VExec(W, x.b, h, [st EXCEPT !.caps = m.caps]) EXCEPT !.caps = st.caps] ELSE st
VExec(W, p, h, st) == IF p = <<>> THEN st ELSE VExec(W, Tail(p), h, VAct(W, p[1], h, st))
VStart(p) == [dr |-> <<>>, ph |-> <<>>, path |-> p, tags |-> <<>>, status |-> 0, free |-> FALSE, wild |-> FALSE, caps |-> <<>>]
RunV(W, prog, rq) == IF HostPart(rq.h) = <<>> THEN [VStart(Path(rq.t)) EXCEPT !.status = 400] ELSE VExec(W, prog, Name(rq.h), VStart(Path(rq.t)))
=============================================================================
