----------------------------- MODULE HeadersMC -----------------------------
EXTENDS Headers
CONSTANT N
VARIABLES st, last, old
Names == {<<"X-A", "x-a">>, <<"x-a", "x-a">>, <<"X-B", "x-b">>}
Pats == {<<[t |-> "lit", x |-> "1"]>>, <<[t |-> "path", x |-> ""]>>, <<[t |-> "rs", x |-> "x-a"]>>, <<[t |-> "lit", x |-> ""]>>, <<[t |-> "env", x |-> "E"], [t |-> "lit", x |-> "\n"]>>}
Stmts == [op : {"add", "append", "overwrite", "remove"}, tab : {"rs"}, n : {}, k : {}, pat : {}]
Prog == {[op |-> o, tab |-> "rs", n |-> n[1], k |-> n[2], pat |-> p] : o \in {"add", "append", "overwrite"}, n \in Names, p \in Pats}
        \cup {[op |-> "remove", tab |-> "rs", n |-> n[1], k |-> n[2], pat |-> <<>>] : n \in Names}
        \cup {[op |-> o, tab |-> "env", n |-> "E", k |-> "E", pat |-> p] : o \in {"set", "add"}, p \in Pats} \cup {[op |-> o, tab |-> "env", n |-> "E", k |-> "E", pat |-> <<>>] : o \in {"remove", "clear"}}
S0 == [rq |-> <<>>, rs |-> <<>>, env |-> <<>>, path |-> "/\r\nX-Evil: 1\r\n\r\nbody", epath |-> "", query |-> ""]
Init == st = S0 /\ last = <<>> /\ old = S0
Next == Len(last) < N /\ \E s \in Prog : st' = Apply(st, s) /\ last' = Append(last, s) /\ old' = st
Spec == Init /\ [][Next]_<<st, last, old>>
\* no value ever contains a line break
NoSplit == \A i \in 1..Len(st.rs) : \A j \in 1..Len(st.rs[i].v) : ~Brk(HCh(st.rs[i].v, j))
Op == last[Len(last)]
Cnt(l, k) == Cardinality(Named(l, k))
Others(l, k) == SelectSeq(l, LAMBDA h : h.k # k)
Exact == last # <<>> /\ Op.tab = "rs" =>
   /\ Others(st.rs, Op.k) = Others(old.rs, Op.k)
   /\ (Op.op = "add" => Cnt(st.rs, Op.k) = Cnt(old.rs, Op.k) + 1)
   /\ (Op.op \in {"append", "overwrite"} => Cnt(st.rs, Op.k) = IF Cnt(old.rs, Op.k) = 0 THEN 1 ELSE Cnt(old.rs, Op.k))
   /\ (Op.op = "remove" => Cnt(st.rs, Op.k) = 0)
   /\ st.env = old.env
Vac == ~(Len(st.rs) = 3 /\ Len(last) = 3)
VacFold == \A i \in 1..Len(st.rs) : st.rs[i].v # "/ X-Evil: 1 body"
=============================================================================
