------------------------------- MODULE Range -------------------------------
(* Byte ranges and conditional requests for a static file.                    *)
EXTENDS HttpHead, Integers

BYTES == <<98, 121, 116, 101, 115>>
Ws == {SP, HT}
RECURSIVE LTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in Ws THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Ws THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
IsNum(s) == s # <<>> /\ All(s, Digit)
Big == 1000000000
RECURSIVE Num0(_, _)
Num0(acc, s) == IF s = <<>> THEN acc ELSE Num0(10 * acc + s[1] - 48, Tail(s))
Num(s) == LET z == LStrip0(s) IN IF Len(z) > 9 THEN Big ELSE Num0(0, z)      \* clipped: files are smaller than 10^9 here
Lim == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,55,57>>             \* 922337203685477579
Fits(s) == LET z == LStrip0(SubSeq(s, 1, Len(s) - 1)) IN Len(z) < Len(Lim) \/ (Len(z) = Len(Lim) /\ LexLE(z, Lim))

\* one range spec (trimmed, non empty): <<first, last>> with -1 for "missing"
SpecOk(p) == LET d == Find(p, 45) IN d > 0 /\
             LET a == RTrim(SubSeq(p, 1, d - 1)) b == LTrim(SubSeq(p, d + 1, Len(p))) IN
             \/ IsNum(a) /\ Fits(a) /\ (b = <<>> \/ (IsNum(b) /\ Fits(b)))
             \/ a = <<>> /\ d = 1 /\ IsNum(b) /\ Fits(b)
Bounds(p, size) ==
  LET d == Find(p, 45) a == RTrim(SubSeq(p, 1, d - 1)) b == LTrim(SubSeq(p, d + 1, Len(p)))
      last == IF b = <<>> \/ a = <<>> THEN size - 1 ELSE IF Num(b) >= size THEN size - 1 ELSE Num(b)
      first == IF a # <<>> THEN Num(a) ELSE IF Num(b) >= size THEN 0 ELSE size - Num(b)
  IN <<first, last>>
RECURSIVE NonEmpty(_)
NonEmpty(ps) == IF ps = <<>> THEN <<>> ELSE (IF Trim(ps[1]) = <<>> THEN <<>> ELSE <<Trim(ps[1])>>) \o NonEmpty(Tail(ps))
\* "bytes" "=" list
HasUnit(h) == LET t == LTrim(h) IN StartsWith(t, BYTES) /\ LET r == LTrim(SubSeq(t, 6, Len(t))) IN r # <<>> /\ r[1] = 61
Specs(h) == LET t == LTrim(h) r == LTrim(SubSeq(t, 6, Len(t))) IN NonEmpty(Split(Tail(r), 44))
WellFormed(h) == HasUnit(h) /\ Specs(h) # <<>> /\ \A i \in 1..Len(Specs(h)) : SpecOk(Specs(h)[i])
RECURSIVE Satisfiable(_, _)
Satisfiable(ps, size) == IF ps = <<>> THEN <<>> ELSE
   LET b == Bounds(ps[1], size) IN (IF b[1] <= b[2] THEN <<b>> ELSE <<>>) \o Satisfiable(Tail(ps), size)
\* a header that only lacks its end: its complete range specs may still be used
PartialSpec(p) == \/ All(p, Digit \cup Ws) \/ p = <<45>>
                  \/ LET d == Find(p, 45) IN d = 1 /\ All(SubSeq(p, 2, Len(p)), Ws)
PrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Truncated(h) == LET t == LTrim(h) IN
   \/ PrefixOf(t, BYTES)
   \/ StartsWith(t, BYTES) /\ LTrim(SubSeq(t, 6, Len(t))) = <<>>
   \/ HasUnit(h) /\ (Specs(h) = <<>> \/ LET n == Len(Specs(h)) IN PartialSpec(Specs(h)[n]) /\ \A i \in 1..(n - 1) : SpecOk(Specs(h)[i]))

\* acceptable results for a Range header h on size bytes: set of [st, parts]
Full(size) == [st |-> 200, parts |-> << >>]
Answers(h, size) ==
  IF WellFormed(h)
  THEN LET R == Satisfiable(Specs(h), size) IN
       IF R = <<>> THEN {[st |-> 416, parts |-> <<>>]} ELSE {[st |-> 206, parts |-> R]}
  ELSE IF Truncated(h)
  THEN {Full(size), [st |-> 416, parts |-> <<>>]} \cup
       (IF HasUnit(h) /\ Len(Specs(h)) > 1
        THEN LET R == Satisfiable(SubSeq(Specs(h), 1, Len(Specs(h)) - 1), size) IN IF R = <<>> THEN {} ELSE {[st |-> 206, parts |-> R]}
        ELSE {})
  ELSE {Full(size)}
\* every range handed out lies inside the file and is not empty
Inside(a, size) == \A i \in 1..Len(a.parts) : 0 <= a.parts[i][1] /\ a.parts[i][1] <= a.parts[i][2] /\ a.parts[i][2] < size

-----------------------------------------------------------------------------
(* conditional requests: inm \in {"none","match","weak","list","other"}, ims relative to the file's date
   {"none","same","newer","older","bad"}, ifr \in {"none","etag","date","other","weak"}; etag: the server sends one *)
NotModified(inm, ims, etag) ==
  LET e == IF inm = "none" THEN "maybe" ELSE IF etag /\ inm \in {"match", "weak", "list"} THEN "yes" ELSE IF etag THEN "no" ELSE "maybe"
      d == IF ims = "none" THEN "maybe" ELSE IF ims \in {"same", "newer"} THEN "yes" ELSE "no"
  IN e # "no" /\ d # "no" /\ "yes" \in {e, d}
RangeApplies(ifr, etag) == ifr \in {"none", "date"} \/ (ifr = "etag" /\ etag)
Result(h, hasr, size, ranges, inm, ims, ifr, etag) ==
  IF NotModified(inm, ims, etag) THEN {[st |-> 304, parts |-> <<>>]}
  ELSE IF hasr /\ ranges /\ RangeApplies(ifr, etag) THEN Answers(h, size) ELSE {Full(size)}
=============================================================================
