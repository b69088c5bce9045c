----------------------------- MODULE RangeTrace -----------------------------
(* observation: [h, hasr, size, ranges, inm, ims, ifr, etag, head, st, parts (Seq of <<a, b>>), ok (bytes sent are the file's),
                 cr416 (Content-Range: bytes star/size on 416)] *)
EXTENDS Range, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, done
T == Traces[ti]
Ok == /\ T.ok
      /\ \E a \in Result(T.h, T.hasr, T.size, T.ranges, T.inm, T.ims, T.ifr, T.etag) :
            /\ a.st = T.st
            /\ (~T.head \/ T.parts # <<>>) => a.parts = T.parts
            /\ T.st = 416 => T.cr416
Init == ti \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ Ok /\ done' = TRUE /\ ti' = ti
Spec == Init /\ [][Next]_<<ti, done>>
Acc == done => PrintT(<<"ACC", ti>>)
=============================================================================
