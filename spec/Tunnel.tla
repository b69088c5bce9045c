------------------------------- MODULE Tunnel -------------------------------
(* An upgraded connection: two byte streams through the server, client -> backend and backend -> client.
   cs/br: bytes sent by the client / received by the backend, bs/cr: the other direction; cf, bf: client, backend ended their side; ce, be: client, backend saw the end *)
EXTENDS Integers
VARIABLES cs, br, bs, cr, cf, bf, ce, be
vars == <<cs, br, bs, cr, cf, bf, ce, be>>
Init0 == cs = 0 /\ br = 0 /\ bs = 0 /\ cr = 0 /\ cf = FALSE /\ bf = FALSE /\ ce = FALSE /\ be = FALSE
CSend(n) == ~cf /\ cs' = cs + n /\ UNCHANGED <<br, bs, cr, cf, bf, ce, be>>
BSend(n) == ~bf /\ bs' = bs + n /\ UNCHANGED <<cs, br, cr, cf, bf, ce, be>>
BRecv(n) == ~be /\ br + n <= cs /\ br' = br + n /\ UNCHANGED <<cs, bs, cr, cf, bf, ce, be>>
CRecv(n) == ~ce /\ cr + n <= bs /\ cr' = cr + n /\ UNCHANGED <<cs, br, bs, cf, bf, ce, be>>
CFin == ~cf /\ cf' = TRUE /\ UNCHANGED <<cs, br, bs, cr, bf, ce, be>>
BFin == ~bf /\ bf' = TRUE /\ UNCHANGED <<cs, br, bs, cr, cf, ce, be>>
\* an end is only passed on after everything that preceded it; when the peer itself ended first, what it did not read may be dropped
BEof == ~be /\ (bf \/ (cf /\ br = cs)) /\ be' = TRUE /\ UNCHANGED <<cs, br, bs, cr, cf, bf, ce>>
CEof == ~ce /\ (cf \/ (bf /\ cr = bs)) /\ ce' = TRUE /\ UNCHANGED <<cs, br, bs, cr, cf, bf, be>>
NoLoss == (be /\ ~bf) => br = cs
NoLossC == (ce /\ ~cf) => cr = bs
NoInvention == br <= cs /\ cr <= bs
=============================================================================
