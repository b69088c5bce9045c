---------------------------- MODULE KeepAliveGen ----------------------------
EXTENDS KeepAliveMC
VARIABLE done
GInit == Init /\ done = FALSE
GNext == \/ Next /\ s'.ph # "shut" /\ done' = FALSE /\ ~done
         \/ ~done /\ done' = TRUE /\ UNCHANGED vars
Emit == done /\ Len(hist) > 0 => PrintT(<<"SCN", ToJson([h |-> hist, k |-> cf.k, n |-> cf.n, ph |-> s.ph])>>)
GSpec == GInit /\ [][GNext]_<<vars, done>>
=============================================================================
