------------------------------- MODULE Relay -------------------------------
(* One response on its way from its producer (backend or built-in handler) through the server to the client.
   A scenario sc describes the request and what the producer will do:
     meth, ver (10/11), ka          the request: method, HTTP version, whether the client wants to keep the connection
     proto                          "proxy" | "scgi" | "fcgi" | "direct"
     head                           "ok" | "bad" (malformed or unacceptable head) | "none" (ended before the head was complete)
     status                         status of the final head
     te, cl, v10ka                  transfer coding ("" | "chunked"), Content-Length (-1: none) of the producer's head, HTTP/1.0 keep-alive announced by the producer
     p                              lengths of the body pieces the producer emits
     term                           how it ends: "eof" (orderly end of the connection), "rst" (reset), "open" (stays open),
                                    "last" (last chunk / END_REQUEST seen), "proto" (protocol violation)
   The client finally observes [st, fr, len, trunc, keep]. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Sum(_)
Sum(p) == IF p = <<>> THEN 0 ELSE p[1] + Sum(Tail(p))
Min(a, b) == IF a < b THEN a ELSE b

Until(sc) == CASE sc.proto = "direct" -> "known"                          \* complete before anything is sent
               [] sc.te = "chunked" -> "last"                              \* the last chunk
               [] sc.proto = "fcgi" -> "end"                               \* end of the record stream
               [] sc.proto = "proxy" /\ sc.cl >= 0 -> "count"              \* Content-Length bytes
               [] OTHER -> "eof"
\* payload bytes the producer's framing gives to the response after i pieces
Pay(sc, i) == LET s == Sum(SubSeq(sc.p, 1, i)) IN IF Until(sc) = "count" THEN Min(s, sc.cl) ELSE s
All(sc) == Pay(sc, Len(sc.p))
\* does the producer's output, once it stopped, form a complete response?
Whole(sc) == CASE Until(sc) = "known" -> TRUE
               [] Until(sc) = "count" -> All(sc) = sc.cl
               [] Until(sc) = "last" -> sc.term \in {"last", "lastend"}
               [] Until(sc) = "end" -> sc.term \in {"end", "lastend"}
               [] OTHER -> sc.term = "eof"
NoBody(sc) == sc.meth = "HEAD" \/ sc.status \in {204, 304}
Acceptable(sc) == sc.head = "ok" /\ sc.status \in 200..999 /\ ~(Until(sc) = "eof" /\ sc.proto = "proxy" /\ sc.v10ka)

VARIABLES sc, hd, i, fin, ans, fwd, res
vars == <<sc, hd, i, fin, ans, fwd, res>>
\* hd: head arrived; i: pieces arrived; fin: "" | "whole" | "cut"; ans: answer head sent [st, fr, ann, keep] or None; fwd: body bytes passed on; res: "" | "done" | "cut"
None == [st |-> 0, fr |-> "", ann |-> -1, keep |-> FALSE]
Start(s) == sc = s /\ hd = FALSE /\ i = 0 /\ fin = (IF s.proto = "direct" THEN "whole" ELSE "") /\ ans = None /\ fwd = 0 /\ res = ""

Arrive == ~hd /\ sc.head = "ok" /\ fin # "cut" /\ hd' = TRUE /\ i' = (IF sc.proto = "direct" THEN Len(sc.p) ELSE i) /\ UNCHANGED <<sc, fin, ans, fwd, res>>
Data == hd /\ fin = "" /\ i < Len(sc.p) /\ i' = i + 1 /\ UNCHANGED <<sc, hd, fin, ans, fwd, res>>
\* the producer stopped; with "open" it only stops being waited for when its response is whole
Stop == /\ fin = "" /\ (IF sc.head = "ok" THEN hd /\ i = Len(sc.p) ELSE TRUE)
        /\ IF sc.head = "ok" /\ Whole(sc) THEN fin' = "whole" ELSE sc.term # "open" /\ fin' = "cut"
        /\ UNCHANGED <<sc, hd, i, ans, fwd, res>>
\* a counted or chunked response is whole as soon as its last byte is there
Avail == Pay(sc, i)
\* after a reset what was sent before may be lost
Lost == fin = "" /\ sc.term = "rst" /\ fin' = "cut" /\ UNCHANGED <<sc, hd, i, ans, fwd, res>>
Error == [st |-> 500, fr |-> "length", ann |-> -1, keep |-> FALSE]
Answer(a) == ans = None /\ res = "" /\ ans' = a /\ UNCHANGED <<sc, hd, i, fin, fwd>>
SendHead ==
    /\ hd /\ Acceptable(sc)
    /\ IF NoBody(sc) THEN \E k \in BOOLEAN : (k => sc.ka) /\ Answer([st |-> sc.status, fr |-> "none", ann |-> -1, keep |-> k])
       ELSE \/ sc.status = 205 /\ Answer([st |-> 205, fr |-> "length", ann |-> 0, keep |-> sc.ka])
            \/ sc.status # 205 /\ fin = "whole" /\ Answer([st |-> sc.status, fr |-> "length", ann |-> All(sc), keep |-> sc.ka])
            \/ sc.status # 205 /\ sc.cl >= 0 /\ sc.te = "" /\ (sc.ver = 10 \/ ~sc.ka) /\ Answer([st |-> sc.status, fr |-> "length", ann |-> sc.cl, keep |-> FALSE])
            \/ sc.status # 205 /\ Until(sc) = "count" /\ sc.ver = 11 /\ \E k \in BOOLEAN : (k => sc.ka) /\ Answer([st |-> sc.status, fr |-> "length", ann |-> sc.cl, keep |-> k])
            \/ sc.status # 205 /\ sc.ver = 11 /\ sc.ka /\ Answer([st |-> sc.status, fr |-> "chunked", ann |-> -1, keep |-> TRUE])
            \/ sc.status # 205 /\ (sc.ver = 10 \/ ~sc.ka) /\ Answer([st |-> sc.status, fr |-> "eof", ann |-> -1, keep |-> FALSE])
    /\ res' = IF NoBody(sc) \/ sc.status = 205 THEN "done" ELSE ""
\* built-in page of an error status without a body
Page == /\ hd /\ Acceptable(sc) /\ fin = "whole" /\ All(sc) = 0 /\ sc.status \in 400..599 /\ ~NoBody(sc)
        /\ Answer([st |-> sc.status, fr |-> "length", ann |-> -1, keep |-> sc.ka]) /\ res' = "page"
\* nothing useful came: an error page, or just the end of the connection
Fail == /\ (fin = "cut" \/ sc.head = "bad" \/ (sc.head = "ok" /\ hd /\ ~Acceptable(sc)))
        /\ \E k \in BOOLEAN : (k => sc.ka) /\ Answer([Error EXCEPT !.keep = k]) /\ res' = "error"
Pass == ans.fr \in {"length", "chunked", "eof"} /\ res = "" /\ fwd < Avail /\ fwd' = Avail /\ UNCHANGED <<sc, hd, i, fin, ans, res>>
Finish == ans.fr \in {"length", "chunked", "eof"} /\ res = "" /\ fin = "whole" /\ fwd = All(sc) /\ res' = "done" /\ UNCHANGED <<sc, hd, i, fin, ans, fwd>>
Cut == ans.fr \in {"length", "chunked", "eof"} /\ res = "" /\ fin = "cut" /\ res' = "cut" /\ UNCHANGED <<sc, hd, i, fin, ans, fwd>>
Next == Arrive \/ Data \/ Stop \/ Lost \/ SendHead \/ Page \/ Fail \/ Pass \/ Finish \/ Cut

Over == res # ""
\* what the client can conclude
Complete == res \in {"done", "page", "error"} \/ (res = "cut" /\ ans.fr = "eof")
KeptOpen == Over /\ ans.keep /\ res # "cut"
\* a delimited response is only ever complete if the producer's was, and then carries all of its payload
NeverInvented == (res = "done" /\ ans.fr \in {"length", "chunked"}) => (fin = "whole" \/ sc.status = 205) /\ (sc.status # 205 => fwd = All(sc) /\ (ans.ann >= 0 => ans.ann = fwd))
Delimited == (ans.keep /\ Over) => ans.fr \in {"length", "chunked", "none"}
NoChunk10 == ans.fr = "chunked" => sc.ver = 11
Bodyless == (Over /\ ans.st \in {204, 304}) => ans.fr = "none"
Bounded == fwd <= All(sc)
=============================================================================
