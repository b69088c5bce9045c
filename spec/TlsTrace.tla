------------------------------ MODULE TlsTrace ------------------------------
(* recorded connections against Tls. A record: [cfg, cert, foreign (session of another listener), ev]
   events: [o|->"admit", v, who]             did the server answer, and with which client name
           [o|->"cert", name, store, fallback, default, shown]
           [o|->"up", n, have, same]         n bytes of request body sent, the application has so many, unchanged?
           [o|->"give", n] [o|->"end", how]  what the application said
           [o|->"got", n, same]              what the client has read in one go
           [o|->"fin", note]                 the end the client saw
           [o|->"reneg", v]                  is a connection whose client started a renegotiation still answered *)
EXTENDS Tls, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, k
T == Traces[ti]
Init == TInit /\ ti \in 1..Len(Traces) /\ k = 1
E == T.ev[k]
Verd == Verdict(T.cfg, T.cert)
Range(s) == {s[i] : i \in DOMAIN s}
Step == CASE E.o = "admit" -> /\ E.v = Verd
                              /\ E.v => E.who = Identity(T.cfg, T.cert)
                              /\ Handshake(E.v)
          [] E.o = "cert"  -> E.shown = ServerCert(E.name, Range(E.store), E.fallback, E.default) /\ UNCHANGED vars
          [] E.o = "up"    -> phase = "up" /\ E.have = E.n /\ E.same /\ UNCHANGED vars
          [] E.o = "give"  -> Give(E.n)
          [] E.o = "end"   -> End(E.how)
          \* encrypted and read
          [] E.o = "got"   -> /\ phase = "up" /\ E.same /\ got + E.n <= given
                              /\ got' = got + E.n /\ UNCHANGED <<phase, given, done, queued, note, fin>>
          \* Notify, ReadNote, Close - or Close alone
          [] E.o = "fin"   -> /\ done # "no"
                              /\ done = "complete" => got = given /\ E.note
                              /\ done = "cut" => ~E.note
                              /\ fin' = TRUE /\ phase' = "dead" /\ note' = (IF E.note THEN "seen" ELSE "no")
                              /\ UNCHANGED <<given, done, queued, got>>
          [] E.o = "reneg" -> ~E.v /\ UNCHANGED vars
          [] OTHER -> FALSE
Next == k <= Len(T.ev) /\ Step /\ k' = k + 1 /\ ti' = ti
Spec == Init /\ [][Next]_<<vars, ti, k>>
Acc == (k > Len(T.ev)) => PrintT(<<"ACC", ti>>)
=============================================================================
