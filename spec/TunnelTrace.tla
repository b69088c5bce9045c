---------------------------- MODULE TunnelTrace ----------------------------
(* one upgraded connection: events [e, n]; a trace is accepted when all events fit and, at the end, both sides saw everything *)
EXTENDS Tunnel, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, k
T == Traces[ti]
Init == Init0 /\ ti \in 1..Len(Traces) /\ k = 1
E == T[k]
Step == CASE E.e = "cs" -> CSend(E.n) [] E.e = "bs" -> BSend(E.n) [] E.e = "br" -> BRecv(E.n) [] E.e = "cr" -> CRecv(E.n)
          [] E.e = "cfin" -> CFin [] E.e = "bfin" -> BFin [] E.e = "beof" -> BEof [] E.e = "ceof" -> CEof [] OTHER -> FALSE
Next == k <= Len(T) /\ Step /\ k' = k + 1 /\ ti' = ti
Spec == Init /\ [][Next]_<<vars, ti, k>>
Acc == (k > Len(T) /\ br = cs /\ cr = bs /\ ce /\ be) => PrintT(<<"ACC", ti>>)
=============================================================================
