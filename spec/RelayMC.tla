------------------------------ MODULE RelayMC ------------------------------
EXTENDS Relay, TLC, Json
CONSTANT Bug
Terms == [proxy |-> {"eof", "rst", "open", "last", "proto"}, scgi |-> {"eof", "rst", "last", "proto"}, fcgi |-> {"eof", "rst", "end", "lastend", "last", "proto"}, direct |-> {"eof"}]
Scn == {s \in [meth : {"GET", "HEAD"}, ver : {10, 11}, ka : BOOLEAN, proto : {"proxy", "scgi", "fcgi", "direct"}, head : {"ok", "bad", "none"}, status : {99, 101, 200, 204, 205, 304, 404, 500, 1000},
         te : {"", "chunked"}, cl : {-1, 0, 2, 3}, v10ka : BOOLEAN, p : {<<>>, <<1>>, <<1, 1>>, <<1, 2>>}, term : {"eof", "rst", "open", "last", "proto", "end", "lastend"}] :
        /\ s.term \in Terms[s.proto]
        /\ s.proto = "direct" => s.head = "ok" /\ s.te = "" /\ s.cl = -1 /\ s.status \in 200..999
        /\ s.v10ka => s.proto = "proxy"
        /\ s.proto \in {"scgi", "fcgi"} /\ (s.ver = 10 \/ ~s.ka) => s.cl \in {-1, Sum(s.p)}
        /\ s.te = "chunked" => s.cl = -1 /\ ~s.v10ka
        /\ s.term \in {"last", "lastend"} => s.te = "chunked"
        /\ s.term = "open" => s.proto = "proxy" /\ s.cl >= 0 /\ Whole(s)
        /\ s.head # "ok" => s.status = 200 /\ s.te = "" /\ s.cl = -1 /\ s.p = <<>> /\ s.term \in {"eof", "rst"}}
MCInit == \E s \in Scn : Start(s)
BadFinish == Bug /\ ans.fr = "chunked" /\ res = "" /\ fin = "cut" /\ res' = "done" /\ UNCHANGED <<sc, hd, i, fin, ans, fwd>>
MCNext == Next \/ BadFinish
Spec == MCInit /\ [][MCNext]_vars /\ WF_vars(Next)
\* every request is answered or its connection ended, unless the producer keeps everybody waiting
Answered == <>(Over \/ (sc.term = "open" /\ ~Whole(sc)))
Vac == ~(res = "cut")
=============================================================================
