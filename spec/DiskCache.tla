----------------------------- MODULE DiskCache -----------------------------
(* Responses kept on disk by entity tag (mod_cache_disk_etag).

   Every request goes to the origin, which answers with the tag of the resource's current version and starts to send the body.
   If a file for the resource and the tag exists the body comes from the file; otherwise the body goes to the client and into
   a file with a name of its own, which gets its final name once the body is complete.  The origin may break off, the client may
   leave, the server may be killed at any point.

     Exact    a client whose response ends properly has the body of the resource and version the head announced
     Whole    a file with a final name holds one complete body, the one its name stands for                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Res, Procs, MaxVer, Len0,
          Naming,          \* "full": the name contains resource and tag; "tag": the tag alone (another query, another host)
          Temp,            \* "own": one temporary file per request; "shared": one per name; "none": written in place
          OnCut            \* "drop": an incomplete file is removed; "keep": it gets its final name
VARIABLES ver, pub, tmp, st, what, pos, got
vars == <<ver, pub, tmp, st, what, pos, got>>

Body(w) == [i \in 1..Len0 |-> <<w[1], w[2], i>>]
(* tags are unique for one resource only *)
NameOf(w) == IF Naming = "full" THEN w ELSE <<0, w[2]>>
TempOf(p, w) == IF Temp = "own" THEN <<"t", p>> ELSE <<"n", NameOf(w)>>
Names == (Res \cup {0}) \X (1..MaxVer)
None == <<>>

Init == ver = [r \in Res |-> 1] /\ pub = [n \in Names |-> None] /\ tmp = << >> /\ st = [p \in Procs |-> "idle"]
        /\ what = [p \in Procs |-> <<0, 0>>] /\ pos = [p \in Procs |-> 0] /\ got = [p \in Procs |-> None]

Change(r) == ver[r] < MaxVer /\ ver' = [ver EXCEPT ![r] = @ + 1] /\ UNCHANGED <<pub, tmp, st, what, pos, got>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE None
(* writing at offset n of a file *)
Over(f, n, b) == [i \in 1..(IF Len(f) > n + 1 THEN Len(f) ELSE n + 1) |-> IF i = n + 1 THEN b ELSE IF i <= Len(f) THEN f[i] ELSE <<0, 0, 0>>]

Ask(p, r) == LET w == <<r, ver[r]>> IN
  /\ st[p] \in {"idle", "done", "cut"}
  /\ what' = [what EXCEPT ![p] = w] /\ pos' = [pos EXCEPT ![p] = 0]
  /\ IF pub[NameOf(w)] # None
     THEN got' = [got EXCEPT ![p] = pub[NameOf(w)]] /\ st' = [st EXCEPT ![p] = "done"] /\ UNCHANGED <<tmp, pub>>
     ELSE /\ got' = [got EXCEPT ![p] = None] /\ st' = [st EXCEPT ![p] = "miss"]
          /\ IF Temp = "none" THEN UNCHANGED <<tmp, pub>> ELSE tmp' = (IF Temp = "own" \/ TempOf(p, w) \notin DOMAIN tmp THEN Put(tmp, TempOf(p, w), None) ELSE tmp) /\ UNCHANGED pub
  /\ UNCHANGED ver
Write(p) == LET w == what[p]  b == Body(w)[pos[p] + 1] IN
  /\ st[p] = "miss" /\ pos[p] < Len0
  /\ pos' = [pos EXCEPT ![p] = @ + 1] /\ got' = [got EXCEPT ![p] = Append(@, b)]
  /\ IF Temp = "none" THEN pub' = [pub EXCEPT ![NameOf(w)] = Over(@, pos[p], b)] /\ UNCHANGED tmp
     ELSE tmp' = Put(tmp, TempOf(p, w), Over(At(tmp, TempOf(p, w)), pos[p], b)) /\ UNCHANGED pub
  /\ UNCHANGED <<ver, st, what>>
Publish(p) == IF Temp = "none" THEN UNCHANGED <<tmp, pub>>
              ELSE /\ pub' = IF TempOf(p, what[p]) \in DOMAIN tmp THEN [pub EXCEPT ![NameOf(what[p])] = At(tmp, TempOf(p, what[p]))] ELSE pub
                   /\ tmp' = Del(tmp, TempOf(p, what[p]))
Finish(p) == st[p] = "miss" /\ pos[p] = Len0 /\ st' = [st EXCEPT ![p] = "done"] /\ Publish(p) /\ UNCHANGED <<ver, what, pos, got>>
Cut(p) == /\ st[p] = "miss" /\ pos[p] > 0 /\ pos[p] < Len0 /\ st' = [st EXCEPT ![p] = "cut"]
          /\ IF OnCut = "keep" THEN Publish(p) ELSE IF Temp = "none" THEN pub' = [pub EXCEPT ![NameOf(what[p])] = None] /\ UNCHANGED tmp ELSE tmp' = Del(tmp, TempOf(p, what[p])) /\ UNCHANGED pub
          /\ UNCHANGED <<ver, what, pos, got>>
Kill == (\E p \in Procs: st[p] = "miss") /\ st' = [p \in Procs |-> IF st[p] = "miss" THEN "cut" ELSE st[p]] /\ UNCHANGED <<ver, pub, tmp, what, pos, got>>
(* a cron job removes files *)
Clean(n) == pub[n] # None /\ pub' = [pub EXCEPT ![n] = None] /\ UNCHANGED <<ver, tmp, st, what, pos, got>>

Next == (\E r \in Res: Change(r)) \/ (\E p \in Procs: (\E r \in Res: Ask(p, r)) \/ Write(p) \/ Finish(p) \/ Cut(p)) \/ Kill \/ \E n \in Names: Clean(n)
Spec == Init /\ [][Next]_vars
Exact == \A p \in Procs: st[p] = "done" => got[p] = Body(what[p])
Whole == \A n \in Names: pub[n] # None => \E w \in Res \X (1..MaxVer): NameOf(w) = n /\ pub[n] = Body(w)
Vac == ~(\E p, q \in Procs: p # q /\ st[p] = "miss" /\ st[q] = "miss" /\ what[p] = what[q] /\ pos[p] # pos[q])
=============================================================================
