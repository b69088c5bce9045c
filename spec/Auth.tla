-------------------------------- MODULE Auth --------------------------------
(* mod_auth: password files, credentials, the challenge, and when changes of a file take effect.  Strings are byte sequences.
   A password file is its text; Ver is the table of facts about the hash functions: [h, p] (htpasswd: the hash h is one of p), [u, r, p, h] (htdigest). *)
EXTENDS HttpHead

Colon == 58
\* ---- password files
RECURSIVE LineSplit(_, _)
LineSplit(f, cur) == IF f = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                     ELSE IF f[1] \in {10, 13} THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o LineSplit(Tail(f), <<>>)
                     ELSE LineSplit(Tail(f), Append(cur, f[1]))
Lines(f) == LineSplit(f, <<>>)
Before(l) == SubSeq(l, 1, Find(l, Colon) - 1)
After(l) == SubSeq(l, Find(l, Colon) + 1, Len(l))
Readable(kind, f) == LET L == Lines(f) IN \A i \in 1..Len(L) : Find(L[i], Colon) # 0 /\ (kind = "htdigest" => Find(After(L[i]), Colon) # 0)
Entries(f, u) == LET L == Lines(f) IN {After(L[i]) : i \in {j \in 1..Len(L) : Find(L[j], Colon) # 0 /\ Before(L[j]) = u}}
\* does text e, stored for user u, admit password p?
Admits(a, e, u, p, V) ==
    CASE a.kind = "plain" -> e = p
      [] a.kind = "htpasswd" -> e # <<>> /\ \E i \in 1..Len(V.pw) : V.pw[i].h = e /\ V.pw[i].p = p
      [] a.kind = "htdigest" -> Find(e, Colon) # 0 /\ Before(e) = a.realm /\ \E i \in 1..Len(V.dg) : V.dg[i].h = After(e) /\ V.dg[i].u = u /\ V.dg[i].r = a.realm /\ V.dg[i].p = p
Valid(a, f, cred, V) == cred.ok /\ \E e \in Entries(f, cred.u) : Admits(a, e, cred.u, cred.p, V)

\* ---- when changes take effect: versions v = Seq of [f, lo, hi] (put in place between lo and hi); the content used at a time in [lo, hi] is one that was
\* ---- in place at most ttl before, never older than one used before, and never an unreadable one
\* ---- (an unreadable file is not taken, so while one is in place the last one looked at stays)
Early == 250
Cand(a, vs, ld, lo, hi) ==
    IF a.ttl = 0 THEN {1}
    ELSE {v \in ld..Len(vs) : /\ vs[v].lo <= hi /\ Readable(a.kind, vs[v].f)
                              /\ \/ \E w \in 1..Len(vs) : ~Readable(a.kind, vs[w].f) /\ vs[w].lo <= hi /\ (w = Len(vs) \/ vs[w + 1].hi >= lo - 1000 * a.ttl - Early)
                                 \/ ~\E w \in (v + 1)..Len(vs) : Readable(a.kind, vs[w].f) /\ vs[w].hi < lo - 1000 * a.ttl - Early}

\* ---- programs: [k "auth", n], [k "deny"], [k "only", us (users let through)], [k "answer", n];  st: [status, user, type, realm, by, ld]
Stop(st) == st.status # 0
Step(x, w, rq, st) ==
    CASE x.k = "answer" -> {IF Stop(st) THEN st ELSE [st EXCEPT !.status = 200, !.by = x.n]}
      [] x.k = "deny" -> {IF Stop(st) THEN st ELSE [st EXCEPT !.status = 403]}
      [] x.k = "only" -> {IF Stop(st) \/ \E i \in 1..Len(x.us) : x.us[i] = st.user THEN st ELSE [st EXCEPT !.status = 403]}
      [] x.k = "auth" -> IF Stop(st) THEN {st}
           ELSE LET a == w.acts[x.n] IN
                {LET s == [st EXCEPT !.ld[x.n] = v, !.realm = a.realm] IN
                 IF Valid(a, w.files[a.file][v].f, rq.cred, w.ver) THEN [s EXCEPT !.user = rq.cred.u, !.type = TRUE] ELSE [s EXCEPT !.status = 401]
                 : v \in Cand(a, w.files[a.file], st.ld[x.n], rq.lo, rq.hi)}
RECURSIVE Prog(_, _, _, _)
Prog(p, w, rq, SS) == IF p = <<>> THEN SS ELSE Prog(Tail(p), w, rq, UNION {Step(p[1], w, rq, st) : st \in SS})
Outcomes(p, w, rq, ld) == Prog(p, w, rq, {[status |-> 0, user |-> <<>>, type |-> FALSE, realm |-> <<>>, by |-> 0, ld |-> ld]})
=============================================================================
