------------------------------ MODULE Forward ------------------------------
(* What a backend is told about a request.
   r = [proto, meth, target, path, query, ver, hs, body, port, lport]; hs: sequence of [n |-> name as sent, k |-> lower case name, v |-> value]
   proxy: request line, headers and body;  scgi, fcgi: an environment (set of name/value pairs) and a body.
   Set: variables fixed by the configuration (env.set). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Set            \* function: variable name -> value
\* headers about this hop, or written by the proxy itself
Hop == {"content-length", "transfer-encoding", "te", "connection", "proxy-connection", "x-forwarded-proto", "x-forwarded-for"}
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
Ch(s, i) == SubSeq(s, i, i)
In(c, s) == \E i \in 1..Len(s) : Ch(s, i) = c
UpTab == [c \in {Ch(Lower, i) : i \in 1..26} |-> LET i == CHOOSE i \in 1..26 : Ch(Lower, i) = c IN Ch(Upper, i)]
         @@ [c \in {Ch(Upper, i) : i \in 1..26} \cup {Ch(Digits, i) : i \in 1..10} |-> c]
Up(c) == IF c \in DOMAIN UpTab THEN UpTab[c] ELSE "_"
RECURSIVE UpStr(_)
UpStr(s) == IF s = "" THEN "" ELSE Up(Ch(s, 1)) \o UpStr(SubSeq(s, 2, Len(s)))
\* meta-variable of a header
Var(h) == IF h.k = "content-type" THEN "CONTENT_TYPE" ELSE "HTTP_" \o UpStr(h.k)
RECURSIVE Join(_, _)
Join(vs, sep) == IF Len(vs) = 1 THEN vs[1] ELSE vs[1] \o sep \o Join(Tail(vs), sep)
Vars(hs) == {Var(hs[i]) : i \in 1..Len(hs)}
Merged(hs, n) == LET mine == SelectSeq(hs, LAMBDA h : Var(h) = n) IN Join([i \in 1..Len(mine) |-> mine[i].v], IF n = "HTTP_COOKIE" THEN "; " ELSE ", ")
HasBody(r) == r.meth \notin {"GET", "HEAD"}
Fixed(r) == [SERVER_SOFTWARE |-> r.tag, SERVER_NAME |-> r.host, GATEWAY_INTERFACE |-> "CGI/1.1", SERVER_PORT |-> r.port, SERVER_ADDR |-> "127.0.0.1", REMOTE_PORT |-> r.rport,
             REMOTE_ADDR |-> "127.0.0.1", SCRIPT_NAME |-> r.path, PATH_INFO |-> "", SCRIPT_FILENAME |-> r.file, DOCUMENT_ROOT |-> r.root, REQUEST_URI |-> r.target, QUERY_STRING |-> r.query,
             REQUEST_METHOD |-> r.meth, REDIRECT_STATUS |-> "200", SERVER_PROTOCOL |-> (IF r.ver = 11 THEN "HTTP/1.1" ELSE "HTTP/1.0"), REQUEST_SCHEME |-> "http", CONTENT_LENGTH |-> ToString(r.body)]
          @@ (IF r.proto = "scgi" THEN "SCGI" :> "1" ELSE <<>>)
\* the environment: the configuration wins, then the request
Env(r) == LET f == Fixed(r) hv == [n \in Vars(r.hs) |-> Merged(r.hs, n)] IN Set @@ f @@ hv

E2E(hs) == SelectSeq(hs, LAMBDA h : h.k \notin Hop)
ProxyLine(r) == r.meth \o " " \o r.target \o (IF r.ver = 11 THEN " HTTP/1.1" ELSE " HTTP/1.0")
\* the headers the proxy writes itself, as a set of lines each of which occurs once
Own(r) == {<<"x-forwarded-for", "127.0.0.1">>, <<"x-forwarded-proto", "http">>} \cup (IF HasBody(r) THEN {<<"content-length", ToString(r.body)>>} ELSE {})
Proxied(r) == [line |-> ProxyLine(r), e2e |-> E2E(r.hs), own |-> Own(r)]
=============================================================================
