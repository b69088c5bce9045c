----------------------------- MODULE HttpConnGen -----------------------------
(* Behaviours of HttpConn turned into client schedules: hist records what the
   client does (send n units / wait for a response); Done states are printed
   and replayed against the real server.                                      *)
EXTENDS HttpConnMC, Json
VARIABLE hist
GInit == MCInit /\ hist = <<>>
GNext == \/ \E n \in 1..3 : Send(n) /\ hist' = Append(hist, n)
         \/ (Interim \/ Respond) /\ hist' = Append(hist, 0)
         \/ (ReadHead \/ ReadBody \/ NextRequest \/ Close) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Finished == ph = "closed" \/ (ph = "idle" /\ cur = Len(reqs))
Emit == Finished => PrintT(<<"SCN", ToJson([reqs |-> reqs, hist |-> hist])>>)
=============================================================================
