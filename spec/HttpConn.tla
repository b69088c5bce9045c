------------------------------ MODULE HttpConn ------------------------------
(* One persistent client connection as lighttpd2 has to treat it.

   The client writes a byte stream that is a concatenation of requests; the
   network may cut it anywhere.  A request is (hl, bl, needs, ...): hl bytes of
   head, bl bytes of body on the wire.  The server's reader (rd) may only ever
   parse a head at a request boundary; it answers the requests in order, one
   final response each, and either keeps the connection aligned on the next
   boundary or closes it.

   Unit of the stream: bytes in the trace specification (HttpConnTrace), small
   abstract units in the exhaustive model (HttpConnMC).                       *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT DrainBug      \* TRUE: model the defect "leftover body is parsed as a head" (must be caught by Boundary)

VARIABLES
  reqs,     \* Seq of requests the client intends to send (layout of the stream)
  sent,     \* units delivered so far
  rd,       \* server's read position
  ph,       \* "idle" waiting for a head | "body" handling request cur | "done" response finished | "closed"
  cur,      \* index of the request being handled (0 none)
  resp,     \* Seq of [req, interim] the client has received
  keep      \* server's decision for the current request

vars == <<reqs, sent, rd, ph, cur, resp, keep>>

RECURSIVE SumLen(_, _)
SumLen(rs, n) == IF n = 0 THEN 0 ELSE SumLen(rs, n - 1) + rs[n].hl + rs[n].bl

Start(i)   == SumLen(reqs, i - 1)
HeadEnd(i) == Start(i) + reqs[i].hl
End(i)     == HeadEnd(i) + reqs[i].bl
Total      == SumLen(reqs, Len(reqs))
NFinal     == Cardinality({j \in 1..Len(resp) : ~resp[j].interim})

\* does the request itself ask for (or force) the end of the connection?
WantsClose(r) == \/ r.bad
                 \/ r.ver = 10 /\ r.conn # "keep"
                 \/ r.ver = 11 /\ r.conn = "close"
                 \/ r.ver \notin {10, 11}
                 \/ r.ver = 10 /\ r.unk     \* response of unknown length: only the close delimits it

Boundaries == {Start(i) : i \in 1..Len(reqs)} \cup {Total}

Init(rs) == /\ reqs = rs /\ sent = 0 /\ rd = 0 /\ ph = "idle" /\ cur = 0 /\ resp = <<>> /\ keep = TRUE

\* ---- client
Send(n) == /\ sent + n <= Total /\ n > 0
           /\ sent' = sent + n
           /\ UNCHANGED <<reqs, rd, ph, cur, resp, keep>>

\* ---- server
\* a head can only be read where a request starts, and only once it is complete
\* (a malformed head may be refused as soon as its first byte is there)
ReadHead == /\ ph = "idle" /\ cur < Len(reqs)
            /\ LET i == cur + 1 IN
                 /\ IF reqs[i].bad THEN sent > Start(i) ELSE sent >= HeadEnd(i)
                 /\ cur' = i
                 /\ rd' = IF reqs[i].bad THEN sent ELSE (IF DrainBug THEN rd + reqs[i].hl ELSE HeadEnd(i))
                 /\ keep' = ~WantsClose(reqs[i])
            /\ ph' = "body"
            /\ UNCHANGED <<reqs, sent, resp>>

ReadBody == /\ ph \in {"body", "done"} /\ ~reqs[cur].bad
            /\ rd < End(cur) /\ sent > rd
            /\ rd' = IF sent < End(cur) THEN sent ELSE End(cur)
            /\ UNCHANGED <<reqs, sent, ph, cur, resp, keep>>

Interim == /\ ph = "body" /\ reqs[cur].expect /\ ~reqs[cur].bad
           /\ ~ \E j \in 1..Len(resp) : resp[j].req = cur
           /\ resp' = Append(resp, [req |-> cur, interim |-> TRUE])
           /\ UNCHANGED <<reqs, sent, rd, ph, cur, keep>>

\* the final response; a handler that needs the body gets exactly the body bytes of this request
Respond == /\ ph = "body"
           /\ (reqs[cur].needs /\ ~reqs[cur].bad) => rd = End(cur)
           /\ resp' = Append(resp, [req |-> cur, interim |-> FALSE])
           /\ ph' = "done"
           \* the response may end before the request body does: then the server may also decide to close
           /\ keep' \in (IF keep /\ rd < End(cur) THEN {TRUE, FALSE} ELSE {keep})
           /\ UNCHANGED <<reqs, sent, rd, cur>>

NextRequest == /\ ph = "done" /\ keep
               /\ DrainBug \/ rd = End(cur)            \* leftover body must be skipped first
               /\ ph' = "idle"
               /\ UNCHANGED <<reqs, sent, rd, cur, resp, keep>>

Close == /\ ph = "done" /\ ~keep
         /\ ph' = "closed"
         /\ UNCHANGED <<reqs, sent, rd, cur, resp, keep>>

Server == ReadHead \/ ReadBody \/ Interim \/ Respond \/ NextRequest \/ Close

\* ---- properties
InOrder == \A j \in 1..Len(resp) : \A k \in 1..Len(resp) : j < k => resp[j].req <= resp[k].req
OneFinal == \A j, k \in 1..Len(resp) : (~resp[j].interim /\ ~resp[k].interim /\ resp[j].req = resp[k].req) => j = k
NoSkip == \A i \in 1..NFinal : \E j \in 1..Len(resp) : resp[j].req = i /\ ~resp[j].interim
Boundary == (ph = "idle") => rd \in Boundaries /\ (cur < Len(reqs) => rd = Start(cur + 1))
NeverAhead == rd <= sent /\ (cur > 0 /\ ~reqs[cur].bad => rd <= End(cur))
AnswersOnlySent == \A j \in 1..Len(resp) : LET i == resp[j].req IN
                     IF reqs[i].bad THEN sent > Start(i)
                     ELSE sent >= HeadEnd(i) /\ ((reqs[i].needs /\ ~resp[j].interim) => sent >= End(i))
NothingAfterClose == (ph = "closed") => \A j \in 1..Len(resp) : resp[j].req <= cur
ClosedMeansWanted == (ph = "closed") => (WantsClose(reqs[cur]) \/ reqs[cur].bl > 0)
=============================================================================
