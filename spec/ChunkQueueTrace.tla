--------------------------- MODULE ChunkQueueTrace ---------------------------
(* every observation (after each call) has to be one the specification allows *)
EXTENDS ChunkQueue, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, s
Init == ti \in 1..Len(Traces) /\ i = 1 /\ s = Init0
T == Traces[ti]

LimOK(n, e) == \A x \in Q :
  LET l == n.q[x].lim IN
  IF l = 0 THEN e.q[x].lim = <<>>
  ELSE LET same == {y \in Q : n.q[y].lim = l} cur == Sum([y \in same |-> e.q[y].mem], same) v == n.lv[l] IN
       /\ Len(e.q[x].lim) = 4
       /\ e.q[x].lim[1] = cur
       /\ e.q[x].lim[2] = (IF v > 0 /\ cur >= v THEN 1 ELSE 0)
       /\ e.q[x].lim[4] = (IF v <= 0 THEN -1 ELSE IF v > cur THEN v - cur ELSE 0)
QOK(n, e) == \A x \in Q :
  /\ e.q[x].c = Content(n.q[x].ch)
  /\ e.q[x].len = QLen(n, x) /\ e.q[x].in = n.q[x].bin /\ e.q[x].out = n.q[x].bout
  /\ MemLow(n.q[x]) <= e.q[x].mem /\ e.q[x].mem <= MemHigh(n.q[x])
  /\ e.q[x].cl = n.q[x].cl
ObsOK(n, e) == QOK(n, e) /\ LimOK(n, e) /\ e.note = e.lk /\ e.bad = 0 /\ e.tmp = TmpFiles(n)

RetOK(e) ==
  LET C == IF e.op = "tz" THEN <<>> ELSE Content(s.q[e.a].ch) IN
  CASE e.op = "sl" -> e.ret = Min(e.c, QLen(s, e.b))
    [] e.op = "sa" -> e.ret = QLen(s, e.b)
    [] e.op = "sk" -> e.ret = Min(e.b, Len(C))
    [] e.op = "sz" -> e.ret = Len(C)
    [] e.op \in {"xs", "xb", "xm"} -> IF e.b <= Len(C) THEN e.ret = 1 /\ e.x = Prefix(C, e.b) ELSE e.ret = 0 /\ e.x = <<>>
    [] e.op = "pw" -> e.ret = Min(e.b, Len(C)) /\ e.x = Prefix(C, e.b)
    [] e.op = "nw" -> e.x = Prefix(C, e.b) /\ (C # <<>> => e.ret = 1)
    [] e.op = "tz" -> e.ret = 1 /\ e.x = Prefix(Bytes(s.ctr, e.b), IF e.a > e.c THEN e.a - e.c ELSE 0)
    [] e.op = "lb" -> e.ret \in {0, 1}
    [] e.op = "nr" -> /\ e.ret <= e.b
                      (* everything is read unless the limit filled up *)
                      /\ (IF e.ret = e.b THEN TRUE ELSE Len(e.q[e.a].lim) = 4 /\ e.q[e.a].lim[2] = 1)
    [] e.op = "sc" -> s.q[e.b].ch # <<>> => e.ret >= 1 /\ e.ret <= QLen(s, e.b)
    [] OTHER -> e.ret = 0
Afters(e) == IF e.op = "sc" THEN {Steal(s, e.a, e.b, e.ret)}
             ELSE IF e.op = "nr" THEN {[Recv(s, e.a, e.ret, k, f) EXCEPT !.ctr = s.ctr + e.b] : k \in 0..e.ret, f \in {4, 100}}
             ELSE {Apply(s, e.op, e.a, e.b, e.c, e.ret)}
EndOK(e) == e.tmp = 0 /\ e.fds = 0 /\ e.lk = <<0, 0>> /\ e.cur = <<0, 0>>

Step == /\ i <= Len(T)
        /\ LET e == T[i] IN
           IF e.op = "end" THEN EndOK(e) /\ s' = s
           ELSE RetOK(e) /\ e.err = 0 /\ \E n \in Afters(e) : ObsOK(n, e) /\ s' = n
        /\ i' = i + 1 /\ ti' = ti
Next == Step
Inv == (i = Len(T) + 1 /\ T[Len(T)].op = "end") => PrintT(<<"ACC", ti>>)
=============================================================================
