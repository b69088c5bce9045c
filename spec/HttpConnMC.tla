----------------------------- MODULE HttpConnMC -----------------------------
(* Exhaustive model: every sequence of up to MaxReq requests from Kinds, every
   segmentation, every interleaving of delivery and service.                  *)
EXTENDS HttpConn, TLC
CONSTANT MaxReq

R(hl, bl, needs, ver, conn, bad, expect, unk) == [hl |-> hl, bl |-> bl, needs |-> needs, ver |-> ver, conn |-> conn, bad |-> bad, expect |-> expect, unk |-> unk]
Kinds == { R(2, 0, FALSE, 11, "none", FALSE, FALSE, FALSE),
           R(2, 0, FALSE, 11, "close", FALSE, FALSE, FALSE),
           R(2, 0, FALSE, 10, "none", FALSE, FALSE, FALSE),
           R(2, 0, FALSE, 10, "keep", FALSE, FALSE, FALSE),
           R(2, 0, FALSE, 10, "keep", FALSE, FALSE, TRUE),
           R(2, 0, FALSE, 11, "none", FALSE, FALSE, TRUE),
           R(2, 3, TRUE, 11, "none", FALSE, FALSE, TRUE),
           R(2, 2, TRUE, 11, "none", FALSE, TRUE, TRUE),
           R(2, 3, FALSE, 11, "none", FALSE, FALSE, FALSE),
           R(2, 0, FALSE, 11, "none", TRUE, FALSE, FALSE) }

MCInit == \E n \in 1..MaxReq : \E rs \in [1..n -> Kinds] : Init(rs)
MCNext == (\E n \in 1..3 : Send(n)) \/ Server
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
\* every fully sent, non-closed connection is answered completely
Answered == <>[](ph = "closed" \/ (sent = Total => NFinal = Len(reqs)))
=============================================================================
