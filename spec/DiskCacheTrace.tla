--------------------------- MODULE DiskCacheTrace ---------------------------
(* Recorded requests against DiskCache.  Events of a record:
     get res ver src dst full same tag   one complete request, in the order of the answers: the origin (of resource res, version
                                     ver) sent its whole body (src = "closed"), broke off ("cut") or sent nothing but the head
                                     ("held"); what the client got is right so far (same) and ended ("done", "cut", "hang")
     free res tag body               a file on disk as the origin: the tag and a digest of the body the client got
     leave res ver                   a client that did not wait for the end; the body may have been kept
     err same                        a response that must not be kept
     files whole temps               (nothing under way) every file kept is one complete body; temporary files left
     kill n                          the worker was killed with at most n files being written                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, pub, maybe, tags, lost
vars == <<ti, i, pub, maybe, tags, lost>>
T == Traces[ti]
E == T.ev[i]
Adv == i' = i + 1 /\ UNCHANGED ti
Init == ti \in 1..Len(Traces) /\ i = 1 /\ pub = {} /\ maybe = {} /\ tags = {} /\ lost = 0
Get ==
  /\ E.o = "get" /\ E.same
  /\ LET w == <<E.res, E.ver>> IN
     /\ (E.dst = "done" => E.full /\ (E.src = "closed" \/ w \in pub \/ w \in maybe \/ E.par))
     /\ (E.src = "closed" \/ (E.src = "held" /\ w \in pub) => E.dst = "done")
     /\ E.dst \in {"done", "cut"}
     /\ pub' = IF E.dst = "done" THEN pub \cup {w} ELSE pub
  /\ UNCHANGED <<tags, lost, maybe>> /\ Adv
Leave == E.o = "leave" /\ maybe' = maybe \cup {<<E.res, E.ver>>} /\ UNCHANGED <<pub, tags, lost>> /\ Adv
Free == /\ E.o = "free" /\ \A x \in tags: (x[1] = <<E.res, E.tag>>) = (x[2] = <<E.res, E.body>>)
        /\ tags' = tags \cup {<<<<E.res, E.tag>>, <<E.res, E.body>>>>} /\ UNCHANGED <<pub, lost, maybe>> /\ Adv
Err == E.o = "err" /\ E.same /\ UNCHANGED <<pub, tags, lost, maybe>> /\ Adv
Files == E.o = "files" /\ E.whole /\ E.temps <= lost /\ UNCHANGED <<pub, tags, lost, maybe>> /\ Adv
Kill == E.o = "kill" /\ lost' = lost + E.n /\ UNCHANGED <<pub, tags, maybe>> /\ Adv
Next == i <= Len(T.ev) /\ (Get \/ Leave \/ Free \/ Err \/ Files \/ Kill)
Spec == Init /\ [][Next]_vars
Acc == i = Len(T.ev) + 1 => PrintT(<<"ACC", ti>>)
=============================================================================
