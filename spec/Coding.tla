------------------------------- MODULE Coding -------------------------------
(* Which coding a response may get, and how the entity tags and conditional requests of the coded representations work
   (mod_deflate deflate_handle, etag.c, RFC 7231 5.3.4, RFC 7232).

   A request lists codings with a quality of zero or more (ae: a set of <<name, zero?>>).  A response with a body that is not
   coded yet is coded with one of the codings the client accepts and the configuration allows, if there is one, and stays as it
   is otherwise.  Each representation (entity, coding) has an entity tag of its own.                                          *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
Codings == {"gzip", "x-gzip", "deflate", "bzip2", "x-bzip2"}
NoBody == {100, 101, 204, 205, 206, 304}

Accepts(ae, c) == <<c, FALSE>> \in ae \/ (<<"*", FALSE>> \in ae /\ <<c, TRUE>> \notin ae)
Named(ae, c) == <<c, FALSE>> \in ae
(* the response may be coded at all *)
Eligible(status, coded, tags) == status \notin NoBody /\ ~coded /\ tags <= 1
(* enc is a right choice ("" = not coded) *)
Right(ae, allowed, status, coded, tags, enc) ==
  IF enc = "" THEN ~Eligible(status, coded, tags) \/ ~\E c \in allowed: Named(ae, c) /\ <<c, TRUE>> \notin ae
  ELSE Eligible(status, coded, tags) /\ enc \in allowed /\ Accepts(ae, enc) /\ (<<enc, TRUE>> \in ae => <<enc, FALSE>> \in ae)

-----------------------------------------------------------------------------
(* the model of the server's choice, and of a cache in front of it *)
CONSTANTS Names,            \* codings in this instance
          Choice,           \* "zero": codings with quality zero are left out; "listed": the name is enough
          Tagging,          \* "coded": the tag depends on the coding; "same": it does not
          VaryOn            \* TRUE: the response says Vary: Accept-Encoding
VARIABLES ae, allowed, ent, got, store
vars == <<ae, allowed, ent, got, store>>
(* order of preference of the code *)
Order == <<"bzip2", "x-bzip2", "gzip", "x-gzip", "deflate">>
Offer(a, al) == {c \in al: IF Choice = "zero" THEN Named(a, c) /\ <<c, TRUE>> \notin a ELSE \E q \in BOOLEAN: <<c, q>> \in a}
Choose(a, al) == LET S == {i \in 1..Len(Order): Order[i] \in Offer(a, al)}
                 IN IF S = {} THEN "" ELSE Order[CHOOSE i \in S: \A j \in S: i <= j]
Tag(e, c) == IF Tagging = "coded" THEN <<e, c>> ELSE <<e, "">>

(* store: what clients behind a shared cache hold, by tag *)
Init == ae \in SUBSET (Names \X BOOLEAN) /\ allowed \in SUBSET (Names \cap Codings) /\ ent = 1 /\ got = <<>> /\ store = {}
Reply == LET c == Choose(ae, allowed) IN
  /\ got' = <<ent, c>>
  /\ store' = store \cup {<<Tag(ent, c), <<ent, c>>>>}
  /\ UNCHANGED <<ae, allowed, ent>>
Other == ae' \in SUBSET (Names \X BOOLEAN) /\ got' = <<>> /\ UNCHANGED <<allowed, ent, store>>
Change == ent < 2 /\ ent' = ent + 1 /\ got' = <<>> /\ UNCHANGED <<ae, allowed, store>>
Next == (got = <<>> /\ Reply) \/ (got # <<>> /\ (Other \/ Change))
Spec == Init /\ [][Next]_vars
RightChoice == got # <<>> => Right(ae, allowed, 200, FALSE, 1, got[2])
OneTagOneBody == \A x, y \in store: x[1] = y[1] => x[2] = y[2]
(* a shared cache gives the stored response to whom it may *)
CacheRight == got # <<>> => \A a \in SUBSET (Names \X BOOLEAN):
  (VaryOn => a = ae) => got[2] = "" \/ (Accepts(a, got[2]) /\ (<<got[2], TRUE>> \in a => <<got[2], FALSE>> \in a))
Vac == ~(\E x, y \in store: x[2][1] = 2 /\ y[2][1] = 2 /\ x[2][2] = "gzip" /\ y[2][2] = "deflate")
=============================================================================
