---------------------------- MODULE BalanceTrace ----------------------------
(* trace: [m, n, w, slack, ev]: what the driver did and saw, one thing after the other (times in ms):
   up b t | down b | req r b t ta (b = 0: not passed on) | arr r b t (a waiting request reaches b) | got r b own | err r | abort r | settled t | end
   m: rr, sqf, or any (nested balancers: only that a usable backend is found) *)
EXTENDS Balance, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ti, i, up, hurt, doubt, load, ptr, w, at, fin
vars == <<ti, i, up, hurt, doubt, load, ptr, w, at, fin>>
T == Traces[ti]
E == T.ev[i]
B == 1..T.n
\* hurt[b]: until then b may be passed over, because an attempt may have failed; doubt: an attempt may fail while it is down
TInit == /\ ti \in 1..Len(Traces) /\ i = 1 /\ up = 1..Traces[ti].n /\ hurt = [b \in 1..Traces[ti].n |-> -1] /\ doubt = {} /\ load = [b \in 1..Traces[ti].n |-> 0]
         /\ ptr = 0 /\ w = {} /\ at = <<>> /\ fin = {}
Ev(o) == i <= Len(T.ev) /\ E.o = o /\ i' = i + 1 /\ UNCHANGED ti
Sure(t) == {b \in up : t > hurt[b]}
Down == B \ up
Up == /\ Ev("up") /\ up' = up \cup {E.b} /\ hurt' = (IF E.b \in doubt \/ w # {} THEN [hurt EXCEPT ![E.b] = E.t + T.w] ELSE hurt) /\ doubt' = doubt \ {E.b}
      /\ UNCHANGED <<load, ptr, w, at, fin>>
Dn == /\ Ev("down") /\ up' = up \ {E.b} /\ doubt' = (IF w # {} \/ hurt[E.b] >= 0 THEN doubt \cup {E.b} ELSE doubt) /\ UNCHANGED <<hurt, load, ptr, w, at, fin>>
Fresh(r) == r \notin w /\ r \notin DOMAIN at /\ r \notin fin
Right(b, t) == \/ T.m = "any" \/ w # {}
               \/ T.m = "rr" /\ ptr < 0
               \/ b \in Seen(T.m, T.n, ptr, load, up, Sure(t))
Req == /\ Ev("req") /\ Fresh(E.r) /\ doubt' = doubt \cup Down
       /\ IF E.b = 0 THEN /\ (Sure(E.t) = {} \/ w # {}) /\ w' = w \cup {E.r} /\ UNCHANGED <<load, ptr, at>>
          ELSE /\ E.b \in up /\ Right(E.b, E.t)
               /\ E.ta - E.t <= (IF Sure(E.t) # {} /\ w = {} THEN 0 ELSE T.w) + T.slack
               /\ at' = (E.r :> E.b) @@ at /\ load' = [load EXCEPT ![E.b] = @ + 1] /\ ptr' = (IF w = {} THEN E.b ELSE -1) /\ w' = w
       /\ UNCHANGED <<up, hurt, fin>>
Arr == /\ Ev("arr") /\ E.r \in w /\ E.b \in up /\ w' = w \ {E.r} /\ at' = (E.r :> E.b) @@ at /\ load' = [load EXCEPT ![E.b] = @ + 1] /\ ptr' = -1
       /\ UNCHANGED <<up, hurt, doubt, fin>>
Leave(r) == /\ load' = [load EXCEPT ![at[r]] = @ - 1] /\ at' = [x \in DOMAIN at \ {r} |-> at[x]] /\ fin' = fin \cup {r}
Got == /\ Ev("got") /\ E.r \in DOMAIN at /\ E.own /\ E.b = at[E.r] /\ Leave(E.r)
       /\ hurt' = (IF E.b \in up /\ w = {} THEN [hurt EXCEPT ![E.b] = -1] ELSE hurt) /\ UNCHANGED <<up, doubt, ptr, w>>
\* the backend broke after it had the request: not tried again, an error
Err == /\ Ev("err") /\ E.r \in DOMAIN at /\ Leave(E.r) /\ UNCHANGED <<up, hurt, doubt, ptr, w>>
Abort == /\ Ev("abort") /\ (IF E.r \in w THEN w' = w \ {E.r} /\ fin' = fin \cup {E.r} /\ UNCHANGED <<at, load>> ELSE E.r \in DOMAIN at /\ Leave(E.r) /\ w' = w)
         /\ UNCHANGED <<up, hurt, doubt, ptr>>
\* backends have been up for long enough
Settled == /\ Ev("settled") /\ (up # {} => w = {}) /\ UNCHANGED <<up, hurt, doubt, load, ptr, w, at, fin>>
End == /\ Ev("end") /\ w = {} /\ DOMAIN at = {} /\ UNCHANGED <<up, hurt, doubt, load, ptr, w, at, fin>>
TNext == Up \/ Dn \/ Req \/ Arr \/ Got \/ Err \/ Abort \/ Settled \/ End
Spec == TInit /\ [][TNext]_vars
Acc == (i = Len(T.ev) + 1) => PrintT(<<"ACC", ti>>)
=============================================================================
