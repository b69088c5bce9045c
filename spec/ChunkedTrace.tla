---------------------------- MODULE ChunkedTrace ----------------------------
(* a trace is a sequence of events of the real code:
   [op |-> "dec", b |-> bytes delivered, eof |-> input ended, ret |-> decoder went on, out |-> all decoded bytes, cl |-> output ended, rest |-> bytes left unread]
   [op |-> "enc", b |-> bytes delivered, eof, out |-> all encoded bytes, cl |-> output ended]
   [op |-> "len", d |-> hexadecimal digits of the piece's length, out |-> the encoder's output before the data]
   [op |-> "req", b |-> bytes sent as request body (plus what follows), eof, st |-> status (0: no response), out |-> body the backend received, next |-> following request answered] *)
EXTENDS Chunked, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, s, fed
T == Traces[ti]
Init == ti \in 1..Len(Traces) /\ i = 1 /\ s = S0 /\ fed = <<>>
IsPrefix(a, c) == Len(a) <= Len(c) /\ SubSeq(c, 1, Len(a)) = a
DecOk(n, e) ==
    CASE n.m = "bad" -> e.ret = 0 /\ IsPrefix(e.out, n.out)
      [] n.m = "end" -> e.ret = 1 /\ e.out = n.out /\ e.cl = 1 /\ e.rest = Len(fed) + Len(e.b) - n.k
      [] n.m = "any" -> \* stray CR or LF in the trailer: refused or skipped, but the end is an empty line
           /\ e.out = n.out
           /\ (e.ret = 1 /\ e.cl = 1 => LET f == fed \o e.b k == Len(f) - e.rest IN k >= 4 /\ SubSeq(f, k - 3, k) = <<CR, LF, CR, LF>>)
      [] OTHER -> IsPrefix(e.out, n.out) /\ (e.eof = 0 => e.ret = 1 /\ e.cl = 0 /\ e.out = n.out) /\ (e.eof = 1 => e.ret = 0 \/ e.cl = 0)
DigStr(d) == [x \in 1..Len(d) |-> Dig(d[x])]
Step == /\ i <= Len(T)
        /\ LET e == T[i] IN
           CASE e.op = "dec" -> LET n == Feed(s, e.b) IN DecOk(n, e) /\ s' = n /\ fed' = fed \o e.b
             [] e.op = "enc" -> LET n == Feed(S0, e.out) f == fed \o e.b IN
                                /\ n.out = f /\ n.k = Len(e.out) /\ n.m = (IF e.eof = 1 THEN "end" ELSE "size0") /\ e.cl = e.eof
                                /\ s' = s /\ fed' = f
             [] e.op = "len" -> e.out = DigStr(DropZ(e.d)) \o <<CR, LF>> /\ s' = s /\ fed' = fed
             [] e.op = "req" -> LET n == Feed(S0, e.b) IN
                                /\ CASE n.m = "bad" -> e.st \in {0, 400} /\ e.next = 0
                                     [] n.m = "end" -> e.st = 200 /\ e.out = n.out /\ (n.k = Len(e.b) => e.next = 1)
                                     [] n.m = "any" -> TRUE
                                     [] OTHER -> e.st \in {0, 400, 408} /\ e.next = 0
                                /\ s' = s /\ fed' = fed
        /\ i' = i + 1 /\ ti' = ti
Inv == i = Len(T) + 1 => PrintT(<<"ACC", ti>>)
Next == Step
Spec == Init /\ [][Next]_<<ti, i, s, fed>>
=============================================================================
