----------------------------- MODULE AlogTrace -----------------------------
(* records: [k |-> "line", f, q, l]: a line l that names request q, which was to be logged with format f;
            [k |-> "file", ids, must, may]: the requests a file's lines are about; [k |-> "conn", ids]: positions in one file of one connection's requests *)
EXTENDS Alog, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE ti
T == Traces[ti]
Verdict(t) == CASE t.k = "line" -> IsLine(t.f, t.q, t.l)
                [] t.k = "file" -> Exactly(t.ids, t.must, t.may)
                [] t.k = "conn" -> \A i \in 1..(Len(t.ids) - 1) : t.ids[i] < t.ids[i + 1]
Init == ti \in 1..Len(Traces)
Next == FALSE /\ ti' = ti
Spec == Init /\ [][Next]_ti
Acc == Verdict(T) => PrintT(<<"ACC", ti>>)
=============================================================================
