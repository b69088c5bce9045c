--------------------------- MODULE ConfigValueMC ---------------------------
(* every sequence of at most MaxN variable operations over two names, nested blocks up to depth 2: the model's own laws *)
EXTENDS ConfigValue, Json
CONSTANTS MaxN, Show_
VARIABLES prog
Names == {"x", "y"}
I(n) == [k |-> "int", ds |-> <<n>>, base |-> 10, neg |-> FALSE, pre |-> "", unit |-> ""]
V(n) == [k |-> "var", n |-> n]
P(n) == [k |-> "print", e |-> V(n)]
Sets == {[k |-> "set", how |-> h, n |-> n, e |-> e] : h \in {"set", "local", "global"}, n \in Names, e \in {I(1), I(2), [k |-> "op", op |-> "+", l |-> V("x"), r |-> I(3)]}}
Flat == Sets \cup {P("x"), P("y")}
Nest == {[k |-> "set", how |-> "set", n |-> "b", e |-> [k |-> "block", b |-> <<s, t>>]] : s \in Sets, t \in {P("x"), P("y")}} \cup {[k |-> "if", b |-> <<s>>, e |-> <<>>] : s \in Sets}
Init == prog = <<>>
Next == Len(prog) < MaxN /\ \E s \in Flat \cup (IF \E i \in 1..Len(prog) : prog[i].k = "if" \/ (prog[i].k = "set" /\ prog[i].n = "b") THEN {} ELSE Nest) : prog' = Append(prog, s)
Spec == Init /\ [][Next]_prog
L == Load(prog)
\* a load leaves exactly the outermost scope, later assignments never change what was printed
Balanced == L.ok => Len(L.sc) = 1
Prefixed == LET a == Load(prog) b == Load(SubSeq(prog, 1, Len(prog) - 1)) IN prog # <<>> => Len(b.out) <= Len(a.out) /\ SubSeq(a.out, 1, Len(b.out)) = b.out
\* local variables of a block are invisible afterwards
Hidden == \A n \in Names : L.ok /\ (\A i \in 1..Len(prog) : prog[i].k = "set" /\ prog[i].n = "b" => prog[i].e.b[1].how = "local") /\ (\A i \in 1..Len(prog) : ~(prog[i].k \in {"set", "if"} /\ (prog[i].k = "if" \/ prog[i].n = n))) => ~Get(L, n).ok
NeverFails == L.ok
\* arithmetic agrees with TLC's own on small numbers
Arith == \A a \in {0, 1, 9, 9999, 10000, 12345}, b \in {0, 1, 7, 9999, 10001} : LET A == Num(FALSE, OfInt(a)) C == Num(FALSE, OfInt(b)) IN
            /\ NumStr(AddN(A, C)) = ToString(a + b) /\ NumStr(AddN(A, Neg(C))) = ToString(a - b) /\ (a * b < 100000000 => NumStr(MulN(A, C)) = ToString(a * b)) /\ (b # 0 => NumStr(DivN(A, C)) = ToString(a \div b))
ASSUME Arith
Emit == (Show_ /\ Len(prog) = MaxN) => PrintT(<<"SCN", ToJson(prog)>>)
=============================================================================
