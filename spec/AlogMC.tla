------------------------------- MODULE AlogMC -------------------------------
(* Workers answer requests and hand one entry each to the log thread, which writes whole lines to the entry's file; when the server stops, the thread
   writes everything that was handed over. The escape function is checked on all short texts over Bytes. *)
EXTENDS Alog
CONSTANTS Bytes, N, Reqs, Workers, FlushAtStop, Lossy
Files == {"f", "g", ""}
File(r) == CASE r % 3 = 0 -> "f" [] r % 3 = 1 -> "g" [] OTHER -> ""
VARIABLES w, todo, busy, done, queue, batch, file, phase
vars == <<w, todo, busy, done, queue, batch, file, phase>>
Texts == UNION {[1..n -> Bytes] : n \in 0..N}
Init == /\ w \in Texts
        /\ todo = (IF w = <<>> THEN Reqs ELSE {})
        /\ busy = [x \in Workers |-> 0] /\ done = {} /\ queue = <<>> /\ batch = <<>> /\ file = [f \in {"f", "g"} |-> <<>>] /\ phase = "up"
Take(x, r) == /\ phase = "up" /\ busy[x] = 0 /\ r \in todo /\ todo' = todo \ {r} /\ busy' = [busy EXCEPT ![x] = r] /\ UNCHANGED <<w, done, queue, batch, file, phase>>
Answer(x) == /\ busy[x] # 0 /\ done' = done \cup {busy[x]} /\ queue' = Append(queue, busy[x]) /\ busy' = [busy EXCEPT ![x] = 0] /\ UNCHANGED <<w, todo, batch, file, phase>>
Grab == /\ phase # "down" /\ batch = <<>> /\ queue # <<>> /\ batch' = queue /\ queue' = <<>> /\ UNCHANGED <<w, todo, busy, done, file, phase>>
Put(r) == IF File(r) = "" THEN file ELSE [file EXCEPT ![File(r)] = Append(@, r)]
Write == /\ batch # <<>> /\ batch' = Tail(batch)
         /\ (file' = Put(batch[1]) \/ (Lossy /\ file' = file))
         /\ UNCHANGED <<w, todo, busy, done, queue, phase>>
Stop == /\ phase = "up" /\ phase' = "stop" /\ UNCHANGED <<w, todo, busy, done, queue, batch, file>>
Down == /\ phase = "stop" /\ \A x \in Workers : busy[x] = 0
        /\ (FlushAtStop => queue = <<>> /\ batch = <<>>)
        /\ phase' = "down" /\ UNCHANGED <<w, todo, busy, done, queue, batch, file>>
Next == (\E x \in Workers, r \in Reqs : Take(x, r)) \/ (\E x \in Workers : Answer(x)) \/ Grab \/ Write \/ Stop \/ Down
Spec == Init /\ [][Next]_vars
Ids(f) == {r \in done : File(r) = f}
Once == \A f \in {"f", "g"} : Cardinality(RangeOf(file[f])) = Len(file[f]) /\ RangeOf(file[f]) \subseteq Ids(f)
SetSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : RangeOf(s) = S
Complete == phase = "down" => \A f \in {"f", "g"} : Exactly(file[f], SetSeq(Ids(f)), <<>>)
\* escaping: printable, unambiguous, and a quoted field ends at its quote
Printable == LET e == Esc(w) IN \A i \in 1..Len(e) : e[i] >= 32 /\ e[i] <= 126
RECURSIVE EndOf(_, _)
EndOf(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = 34 THEN i ELSE IF s[i] = 92 THEN EndOf(s, i + 2) ELSE EndOf(s, i + 1)
Quoted == EndOf(Esc(w) \o <<34>>, 1) = Len(Esc(w)) + 1
Unesc(e) == {t \in Texts : Len(t) <= Len(e) /\ Esc(t) = e}
Unique == Len(w) <= 2 => Unesc(Esc(w)) = {w}
\* one accepted text per line for a strict format
Q(t) == [m |-> <<71>>, raw |-> t, ver |-> <<72>>, st |-> 200, body |-> <<0, 12>>, cut |-> FALSE]
F == <<[t |-> "lit", x |-> <<34>>], [t |-> "r", x |-> <<>>], [t |-> "lit", x |-> <<34, 32>>], [t |-> "b", x |-> <<>>], [t |-> "lit", x |-> <<32>>], [t |-> "s", x |-> <<>>]>>
Ln(t, n) == <<34, 71, 32>> \o Esc(t) \o <<32, 72, 34, 32>> \o (IF n = 0 THEN Dash ELSE Dec(n)) \o <<32, 50, 48, 48>>
Lines == Len(w) <= 2 => /\ IsLine(F, Q(w), Ln(w, 0)) /\ IsLine(F, Q(w), Ln(w, 12)) /\ ~IsLine(F, Q(w), Ln(w, 120)) /\ ~IsLine(F, Q(w), Ln(w, 1))
                        /\ \A t \in Texts : (Len(t) <= 2 /\ t # w) => ~IsLine(F, Q(w), Ln(t, 0))
Vac == phase # "down" \/ Len(file["f"]) = 0
=============================================================================
