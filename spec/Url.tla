-------------------------------- MODULE Url --------------------------------
(* From the request target to the file: splitting, escape decoding, path
   normalisation, and the docroot/alias/index/pathinfo/static pipeline over an
   abstract file system.  Strings are sequences of byte values.               *)
EXTENDS HttpHead

Slash == 47  Dot == 46  Pct == 37  Underscore == 95
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
Safe(c) == IF c < 32 \/ c = 127 THEN Underscore ELSE c

\* escapes: %XX is one byte (controls become "_"); an invalid escape swallows its three bytes, a truncated one the rest
RECURSIVE Decode(_)
Decode(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] # Pct THEN <<Safe(s[1])>> \o Decode(Tail(s))
  ELSE IF Len(s) < 3 THEN <<>>
  ELSE (IF s[2] \in Hex /\ s[3] \in Hex THEN <<Safe(16 * HexVal(s[2]) + HexVal(s[3]))>> ELSE <<>>) \o Decode(SubSeq(s, 4, Len(s)))

\* path normalisation, by segments (RFC 3986 5.2.4 plus merging of empty segments)
RECURSIVE Fold(_, _)
Fold(stack, segs) ==
  IF segs = <<>> THEN stack
  ELSE LET x == segs[1] IN
       Fold(CASE x = <<>> \/ x = <<Dot>> -> stack
              [] x = <<Dot, Dot>> -> IF stack = <<>> THEN stack ELSE SubSeq(stack, 1, Len(stack) - 1)
              [] OTHER -> Append(stack, x), Tail(segs))
RECURSIVE JoinSegs(_)
JoinSegs(st) == IF st = <<>> THEN <<>> ELSE <<Slash>> \o st[1] \o JoinSegs(Tail(st))
Simplify(p) ==
  LET segs == Split(p, Slash)
      last == segs[Len(segs)]
      st == Fold(<<>>, segs)
      dir == last \in {<<>>, <<Dot>>, <<Dot, Dot>>}      \* denotes a directory: keeps its slash
  IN JoinSegs(st) \o (IF dir \/ st = <<>> THEN <<Slash>> ELSE <<>>)

\* origin-form target -> raw path / query
NoFrag(t) == LET i == Find(t, 35) IN IF i = 0 THEN t ELSE SubSeq(t, 1, i - 1)
RawPath(t) == LET u == NoFrag(t) i == Find(u, 63) IN IF i = 0 THEN u ELSE SubSeq(u, 1, i - 1)
Query(t) == LET u == NoFrag(t) i == Find(u, 63) IN IF i = 0 THEN <<>> ELSE SubSeq(u, i + 1, Len(u))
Path(t) == Simplify(Decode(RawPath(t)))

\* what must hold of every normalised path
Normal(p) == /\ p # <<>> /\ p[1] = Slash
             /\ LET g == Split(p, Slash) IN
                \A i \in 2..Len(g) : g[i] \notin {<<Dot>>, <<Dot, Dot>>} /\ (g[i] = <<>> => i = Len(g))
             /\ \A i \in 1..Len(p) : p[i] >= 32 /\ p[i] # 127

-----------------------------------------------------------------------------
(* file system: FS is a Seq of [p |-> path, id |-> content id ("" for a directory)] *)
Lookup(FS, p) == {i \in 1..Len(FS) : FS[i].p = p}
RECURSIVE WalkTo(_, _, _)
WalkTo(FS, at, segs) ==      \* at: path of an existing directory
  IF segs = <<>> THEN "dir"
  ELSE IF segs[1] \in {<<>>, <<Dot>>} THEN WalkTo(FS, at, Tail(segs))
  ELSE LET q == at \o <<Slash>> \o segs[1] I == Lookup(FS, q) IN
       IF I = {} THEN "enoent"
       ELSE LET e == FS[CHOOSE i \in I : TRUE] IN
            IF e.id = "" THEN WalkTo(FS, q, Tail(segs))
            ELSE IF Len(segs) = 1 THEN e.id ELSE "enotdir"
Stat(FS, p) == WalkTo(FS, <<>>, Tail(Split(p, Slash)))
Exists(r) == r \notin {"enoent", "enotdir"}
IsFile(r) == r \notin {"enoent", "enotdir", "dir"}

(* pipeline state: [up (url path), dr, ph, pi, redir] *)
DoDocroot(c, s) == IF c.docroot = <<>> THEN s ELSE [s EXCEPT !.dr = c.docroot, !.ph = c.docroot \o s.up]
Cut(p) == IF p # <<>> /\ p[Len(p)] = Slash THEN SubSeq(p, 1, Len(p) - 1) ELSE p
AliasHits(c, up) == {i \in 1..Len(c.alias) : LET p == Cut(c.alias[i].prefix) IN
                       StartsWith(up, p) /\ (Len(up) = Len(p) \/ up[Len(p) + 1] = Slash)}
DoAlias(c, s) == LET H == AliasHits(c, s.up) IN
  IF H = {} THEN s
  ELSE LET a == c.alias[CHOOSE i \in H : \A j \in H : i <= j] IN
       [s EXCEPT !.dr = a.path, !.ph = a.path \o SubSeq(s.up, Len(Cut(a.prefix)) + 1, Len(s.up))]
RECURSIVE TryIndex(_, _, _, _, _)
TryIndex(FS, files, isdir, needslash, s) ==
  IF files = <<>> \/ s.redir THEN s
  ELSE LET x == files[1] IN
       IF x[1] = Slash
       THEN IF Exists(Stat(FS, s.dr \o x)) THEN [s EXCEPT !.ph = s.dr \o x, !.up = x]
            ELSE TryIndex(FS, Tail(files), isdir, needslash, s)
       ELSE IF ~isdir THEN TryIndex(FS, Tail(files), isdir, needslash, s)
       ELSE IF needslash THEN [s EXCEPT !.redir = TRUE]
       ELSE IF Exists(Stat(FS, s.ph \o x)) THEN [s EXCEPT !.ph = @ \o x, !.up = @ \o x]
       ELSE TryIndex(FS, Tail(files), isdir, needslash, s)
DoIndex(FS, c, s) == LET r == Stat(FS, s.ph) IN
  IF c.index = <<>> \/ IsFile(r) THEN s
  ELSE TryIndex(FS, c.index, r = "dir", s.up[Len(s.up)] # Slash, s)
LastSlash(p) == LET I == {i \in 1..Len(p) : p[i] = Slash} IN CHOOSE i \in I : \A j \in I : j <= i
RECURSIVE DoPathinfo(_, _, _)
DoPathinfo(FS, c, s) ==
  IF ~c.pathinfo \/ s.redir \/ Len(s.ph) <= Len(s.dr) THEN s
  ELSE LET r == Stat(FS, s.ph) IN
       IF r # "enotdir" THEN s
       ELSE LET k == LastSlash(s.ph) IN
            DoPathinfo(FS, c, [s EXCEPT !.pi = SubSeq(s.ph, k, Len(s.ph)) \o @, !.ph = SubSeq(s.ph, 1, k - 1)])
HasSuffix(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Base(p) == SubSeq(p, LastSlash(p) + 1, Len(p))
\* final answer: [st, id, s]
Serve(FS, c, s) ==
  IF s.redir THEN [st |-> 301, id |-> "", s |-> s]
  ELSE IF s.ph = <<>> \/ s.ph[Len(s.ph)] = Slash THEN [st |-> 404, id |-> "", s |-> s]
  ELSE IF \E i \in 1..Len(c.excl) : HasSuffix(Base(s.ph), c.excl[i]) THEN [st |-> 403, id |-> "", s |-> s]
  ELSE LET r == Stat(FS, s.ph) IN
       IF IsFile(r) THEN [st |-> 200, id |-> r, s |-> s] ELSE [st |-> 404, id |-> "", s |-> s]
Resolve(FS, c, t) ==
  LET s0 == [up |-> Path(t), dr |-> <<>>, ph |-> <<>>, pi |-> <<>>, redir |-> FALSE] IN
  Serve(FS, c, DoPathinfo(FS, c, DoIndex(FS, c, DoAlias(c, DoDocroot(c, s0)))))
\* the physical path lies below one of the configured roots
Below(p, d) == StartsWith(p, d) /\ \A i \in 1..Len(Split(p, Slash)) : Split(p, Slash)[i] # <<Dot, Dot>>
Contained(c, s) == \/ Below(s.ph, c.docroot) \/ \E i \in 1..Len(c.alias) : Below(s.ph, c.alias[i].path)
=============================================================================
