---------------------------- MODULE DeflateTrace ----------------------------
(* Recorded responses against Deflate and Coding.  Record fields
     k = "resp": ae, allowed, status, coded, tags, prompt (the coding is one that is flushed), ev:
        head status enc vary     the response the client got
        data n got same          the origin paused after n bytes; got of them can be decoded, equal to what was sent
        end src dst full         how the origin's message and the client's ended; everything arrived
        next ok                  the following request on the connection was answered
     k = "tags": ev:
        tag ent enc tag          the representation <<ent, enc>> came with this entity tag
        cond ent enc inm status  the answer to If-None-Match: inm when the representation is <<ent, enc>>                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
C == INSTANCE Coding WITH Names <- {}, Choice <- "zero", Tagging <- "coded", VaryOn <- TRUE,
                          ae <- {}, allowed <- {}, ent <- 0, got <- <<>>, store <- {}
VARIABLES ti, i, out, dst, enc, store
vars == <<ti, i, out, dst, enc, store>>
T == Traces[ti]
E == T.ev[i]
Adv == i' = i + 1 /\ UNCHANGED ti
Ran(s) == {s[j] : j \in DOMAIN s}
Init == ti \in 1..Len(Traces) /\ i = 1 /\ out = 0 /\ dst = "open" /\ enc = "?" /\ store = {}

Ae == {<<T.ae[j][1], T.ae[j][2]>> : j \in DOMAIN T.ae}
Headed ==
  /\ T.k = "resp" /\ E.o = "head" /\ enc = "?"
  /\ E.status = T.status
  /\ IF T.coded THEN E.enc = T.enc ELSE C!Right(Ae, Ran(T.allowed), T.status, T.coded, T.tags, E.enc)
  /\ (T.status \notin C!NoBody /\ ~T.coded) => E.vary
  /\ enc' = E.enc /\ UNCHANGED <<out, dst, store>> /\ Adv
Data ==
  /\ T.k = "resp" /\ E.o = "data" /\ enc # "?" /\ dst = "open"
  /\ E.same /\ E.got >= out /\ E.got <= E.n
  /\ (enc \notin {"bzip2", "x-bzip2"} => E.got = E.n)
  /\ out' = E.got /\ UNCHANGED <<dst, enc, store>> /\ Adv
End ==
  /\ T.k = "resp" /\ E.o = "end" /\ dst = "open"
  /\ E.dst \in {"closed", "cut"} /\ E.same
  /\ E.dst = "closed" => enc # "?" /\ E.src = "closed" /\ E.full
  /\ E.dst = "cut" => E.src = "cut"
  /\ dst' = E.dst /\ UNCHANGED <<out, enc, store>> /\ Adv
Following == T.k = "resp" /\ E.o = "next" /\ dst = "closed" /\ E.ok /\ UNCHANGED <<out, dst, enc, store>> /\ Adv

TagEv ==
  /\ T.k = "tags" /\ E.o = "tag" /\ E.tag # ""
  /\ \A x \in store: (x[1] = E.tag) = (x[2] = <<E.ent, E.enc>>)
  /\ store' = store \cup {<<E.tag, <<E.ent, E.enc>>>>} /\ UNCHANGED <<out, dst, enc>> /\ Adv
Cond ==
  /\ T.k = "tags" /\ E.o = "cond"
  /\ LET mine == {x \in store: x[2] = <<E.ent, E.enc>>}
         same == {x \in store: x[2][1] = E.ent}
         hit == Ran(E.inm)
     IN /\ mine # {}
        /\ ((\E x \in mine: x[1] \in hit) \/ "*" \in hit) => E.status = 304
        /\ (~(\E x \in same: x[1] \in hit) /\ "*" \notin hit) => E.status = 200
  /\ E.status \in {200, 304} /\ UNCHANGED <<out, dst, enc, store>> /\ Adv

Next == i <= Len(T.ev) /\ (Headed \/ Data \/ End \/ Following \/ TagEv \/ Cond)
Spec == Init /\ [][Next]_vars
Acc == i = Len(T.ev) + 1 => PrintT(<<"ACC", ti>>)
Prefix == out >= 0
=============================================================================
