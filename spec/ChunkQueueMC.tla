---------------------------- MODULE ChunkQueueMC ----------------------------
EXTENDS ChunkQueue, TLC, Json
CONSTANTS Depth, NQUse, Sizes, Emit, Bug
VARIABLES s, h
QU == 1..NQUse
Ops == [op : {"as", "am", "ab", "au", "av", "fc", "fn", "fd", "ft", "fx", "sk", "xs", "xb", "xm", "pw", "lb", "ul"}, a : QU, b : Sizes, c : {0}]
       \cup [op : {"nw", "nr"}, a : QU, b : Sizes \ {0}, c : {0, 1}]
       \cup [op : {"tz"}, a : {0, 1, 2}, b : {3}, c : {0, 1}]
       \cup [op : {"aw"}, a : QU, b : {1, 2}, c : {1}]
       \cup {o \in [op : {"sl"}, a : QU, b : QU, c : Sizes] : o.a # o.b}
       \cup {o \in [op : {"sa", "sc"}, a : QU, b : QU, c : {0}] : o.a # o.b}
       \cup [op : {"sz", "rs", "cl"}, a : QU, b : {0}, c : {0}]
       \cup [op : {"ll"}, a : {1, 2}, b : Sizes, c : {0}]
       \cup [op : {"lq"}, a : QU, b : {0, 1, 2}, c : {0}]
Init == s = Init0 /\ h = <<>>
BugApply(o) == IF Bug /\ o.op = "sl" THEN [Apply(s, o.op, o.a, o.b, o.c, 0) EXCEPT !.q[o.b].ch = s.q[o.b].ch]
               ELSE Apply(s, o.op, o.a, o.b, o.c, IF o.op = "nr" THEN o.b ELSE 1)
Next == Len(h) < Depth /\ \E o \in Ops : s' = BugApply(o) /\ h' = Append(h, o)
NextSim == Len(h) < Depth /\ LET o == RandomElement(Ops) IN s' = BugApply(o) /\ h' = Append(h, o)
Done == Len(h) = Depth /\ Emit => PrintT(<<"SCN", ToJson([i \in 1..Len(h) |-> <<h[i].op, h[i].a, h[i].b, h[i].c>>])>>)
Inv == Conserved(s) /\ Accounting(s) /\ NoEmptyChunk(s) /\ Done
View == IF Emit THEN <<s, h>> ELSE <<s, Len(h)>>
=============================================================================
