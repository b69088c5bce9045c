---------------------------- MODULE HttpConnTrace ----------------------------
(* Checks recorded client-side histories of the real server against HttpConn.
   A trace is [reqs |-> Seq of requests, ev |-> Seq of events]; events:
     [t |-> "send", n |-> bytes]                         about to be written
     [t |-> "resp", id, interim, adv, body]              a complete response was parsed
     [t |-> "eof", rst |-> BOOLEAN]                      the server closed
     [t |-> "end"]                                       nothing more came within the patience period
   The server's own steps (ReadHead, ReadBody, NextRequest, Close) are hidden:
   TLC looks for any placement that explains the events.                       *)
EXTENDS HttpConn, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, k
tvars == <<vars, ti, k>>

T == Traces[ti]
TInit == /\ ti \in 1..Len(Traces) /\ k = 1 /\ Init(Traces[ti].reqs)

E == T.ev[k]
Step == k' = k + 1 /\ ti' = ti
More == k <= Len(T.ev)

EvSend == /\ More /\ E.t = "send" /\ Send(E.n) /\ Step

EvResp == /\ More /\ E.t = "resp" /\ cur > 0
          /\ IF E.interim
             THEN Interim
             ELSE /\ Respond
                  /\ E.id = (IF reqs[cur].bad THEN "" ELSE reqs[cur].id)
                  /\ E.body = reqs[cur].want
                  \* an announced close is a close; an announced keep-alive is kept unless body bytes were left unread
                  /\ (E.adv = "close") => ~keep'
                  /\ (E.adv = "keep") => (keep' \/ rd < End(cur))
          /\ Step

\* the connection ends: regularly, or (after unread input) by a reset that may swallow responses
EvEof == /\ More /\ E.t = "eof"
         /\ \/ ph = "closed"
            \/ E.rst /\ cur > 0 /\ ~keep
         /\ ph' = "closed"
         /\ UNCHANGED <<reqs, sent, rd, cur, resp, keep>>
         /\ Step

\* silence is only acceptable when everything complete has been answered
EvEnd == /\ More /\ E.t = "end"
         /\ \/ ph = "closed"
            \/ ph = "idle" /\ (cur = Len(reqs) \/ sent < HeadEnd(cur + 1))
            \/ /\ ph \in {"body", "done"} /\ sent < End(cur)
               \* a client waiting for "100 Continue" must not be left waiting
               /\ reqs[cur].expect => \E j \in 1..Len(resp) : resp[j].req = cur
         /\ UNCHANGED vars
         /\ Step

Hidden == /\ More /\ (ReadHead \/ ReadBody \/ NextRequest \/ Close)
          /\ UNCHANGED <<ti, k>>

TNext == EvSend \/ EvResp \/ EvEof \/ EvEnd \/ Hidden
TSpec == TInit /\ [][TNext]_tvars
\* printed once per accepted trace
Acc == (k = Len(T.ev) + 1) => PrintT(<<"ACC", ti>>)
TInv == InOrder /\ OneFinal /\ NoSkip /\ Boundary /\ NeverAhead
=============================================================================
