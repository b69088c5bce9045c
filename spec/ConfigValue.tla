---------------------------- MODULE ConfigValue ----------------------------
(* Load-time meaning of a configuration: values, expressions, variables and scopes; numbers are exact 64 bit integers.
   A number is [neg, m] with m a magnitude in base 10000, little endian, no leading zero limb (zero is <<>>). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
B == 10000
RECURSIVE Trim(_)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) == IF i > Max(Len(a), Len(b)) THEN IF c = 0 THEN <<>> ELSE <<c>>
                    ELSE LET s == At(a, i) + At(b, i) + c IN <<s % B>> \o AddC(a, b, i + 1, s \div B)
AddM(a, b) == AddC(a, b, 1, 0)
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET s == At(a, i) - At(b, i) - c IN <<(s + B) % B>> \o SubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
SubM(a, b) == Trim(SubC(a, b, 1, 0))          \* a >= b
RECURSIVE LtAt(_, _, _)
LtAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtAt(a, b, i - 1)
Lt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LtAt(a, b, Len(a))
RECURSIVE MulC(_, _, _, _)
MulC(a, k, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o (IF c >= B THEN <<c \div B>> ELSE <<>>)) ELSE LET s == a[i] * k + c IN <<s % B>> \o MulC(a, k, i + 1, s \div B)
MulS(a, k) == Trim(MulC(a, k, 1, 0))          \* k < 100000
RECURSIVE MulA(_, _, _)
MulA(a, b, i) == IF i > Len(b) THEN <<>> ELSE AddM(MulS(a, b[i]), (IF MulA(a, b, i + 1) = <<>> THEN <<>> ELSE <<0>> \o MulA(a, b, i + 1)))
MulM(a, b) == Trim(MulA(a, b, 1))
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfInt(n \div B)
Small(m) == Len(m) <= 2
ToInt(m) == At(m, 1) + B * At(m, 2)
MaxPos == <<5807, 5477, 368, 3372, 922>>     \* 2^63 - 1
MaxNeg == <<5808, 5477, 368, 3372, 922>>     \* 2^63
Num(neg, m) == [ty |-> "num", neg |-> neg /\ m # <<>>, m |-> m]
Fits(n) == IF n.neg THEN ~Lt(MaxNeg, n.m) ELSE ~Lt(MaxPos, n.m)
Neg(n) == Num(~n.neg, n.m)
AddN(a, b) == IF a.neg = b.neg THEN Num(a.neg, AddM(a.m, b.m)) ELSE IF Lt(a.m, b.m) THEN Num(b.neg, SubM(b.m, a.m)) ELSE Num(a.neg, SubM(a.m, b.m))
MulN(a, b) == Num(a.neg # b.neg, MulM(a.m, b.m))
DivN(a, b) == Num(a.neg # b.neg, OfInt(ToInt(a.m) \div ToInt(b.m)))     \* both small; truncates towards zero
Pad4(n) == (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE "") \o ToString(n)
RECURSIVE Dec(_, _)
Dec(m, i) == IF i = 0 THEN "" ELSE (IF i = Len(m) THEN ToString(m[i]) ELSE Pad4(m[i])) \o Dec(m, i - 1)
NumStr(n) == (IF n.neg THEN "-" ELSE "") \o (IF n.m = <<>> THEN "0" ELSE Dec(n.m, Len(n.m)))

\* literals: digits (Seq of 0..15), base, sign, suffix
RECURSIVE Digits(_, _, _, _)
Digits(ds, base, i, acc) == IF i > Len(ds) THEN acc ELSE Digits(ds, base, i + 1, Trim(AddM(MulS(acc, base), OfInt(ds[i]))))
RECURSIVE Pow(_, _, _)
Pow(m, k, n) == IF n = 0 THEN m ELSE Pow(MulS(m, k), k, n - 1)
Kilo(s) == CASE s = "" -> 0 [] s = "k" -> 1 [] s = "m" -> 2 [] s = "g" -> 3 [] s = "t" -> 4 [] s = "p" -> 5
\* unit "byte"/"bit"/"sec"/"min"/"hours"/"days"/"" with prefix; a bare "bit" divides the number by 8, kbit and up multiply by 128 * 1024^n
Scale(m, pre, unit) == CASE unit \in {"", "sec"} -> m [] unit = "byte" -> Pow(m, 1024, Kilo(pre)) [] unit = "min" -> MulS(m, 60) [] unit = "hours" -> MulS(m, 3600) [] unit = "days" -> MulS(m, 86400)
    [] unit = "bit" -> IF pre = "" THEN OfInt(ToInt(m) \div 8) ELSE Pow(MulS(m, 128), 1024, Kilo(pre) - 1)
Lit(x) == LET m == Digits(x.ds, x.base, 1, <<>>) IN LET n == Num(x.neg, m) IN IF ~Fits(n) THEN [ok |-> FALSE] ELSE LET r == Num(x.neg, Scale(m, x.pre, x.unit)) IN IF Fits(r) THEN [ok |-> TRUE, v |-> r] ELSE [ok |-> FALSE]

\* ---- values
Str(s) == [ty |-> "str", s |-> s]
Bool(b) == [ty |-> "bool", b |-> b]
List(l) == [ty |-> "list", l |-> l]
Nul == [ty |-> "null"]
Act == [ty |-> "action"]
RECURSIVE Show(_)
RECURSIVE ShowL(_)
Show(v) == CASE v.ty = "num" -> NumStr(v) [] v.ty = "str" -> "\"" \o v.s \o "\"" [] v.ty = "bool" -> (IF v.b THEN "true" ELSE "false") [] v.ty = "null" -> "null" [] v.ty = "action" -> "<action>" [] v.ty = "list" -> "(" \o ShowL(v.l) \o ")"
ShowL(l) == IF l = <<>> THEN "" ELSE Show(l[1]) \o (IF Len(l) > 1 THEN ", " ELSE "") \o ShowL(Tail(l))

Ok(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE]
Chk(n) == IF Fits(n) THEN Ok(n) ELSE Bad
Op(op, a, b) ==
    IF a.ty # b.ty THEN Bad
    ELSE CASE a.ty = "num" -> (CASE op = "+" -> Chk(AddN(a, b)) [] op = "-" -> Chk(AddN(a, Neg(b))) [] op = "*" -> Chk(MulN(a, b)) [] op = "/" -> IF b.m = <<>> THEN Bad ELSE Chk(DivN(a, b)))
           [] a.ty = "str" -> IF op = "+" THEN Ok(Str(a.s \o b.s)) ELSE Bad
           [] a.ty = "list" -> IF op = "+" THEN Ok(List(a.l \o b.l)) ELSE Bad
           [] OTHER -> Bad

\* ---- scopes: st = [sc (Seq of functions, innermost last), gl (global function), out (Seq of printed strings), ok]
Def(f, k) == k \in DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Where(st, k) == {i \in 1..Len(st.sc) : Def(st.sc[i], k)}
Get(st, k) == LET w == Where(st, k) IN IF w # {} THEN Ok(st.sc[CHOOSE i \in w : \A j \in w : j <= i][k]) ELSE IF Def(st.gl, k) THEN Ok(st.gl[k]) ELSE Bad
Set(st, how, k, v) ==
    LET w == Where(st, k) IN
    IF how = "global" THEN [st EXCEPT !.gl = Put(@, k, v)]
    ELSE IF how = "local" THEN [st EXCEPT !.sc[Len(st.sc)] = Put(@, k, v)]
    ELSE IF w # {} THEN [st EXCEPT !.sc[CHOOSE i \in w : \A j \in w : j <= i] = Put(@, k, v)]
    ELSE IF Def(st.gl, k) THEN [st EXCEPT !.gl = Put(@, k, v)]
    ELSE [st EXCEPT !.sc[Len(st.sc)] = Put(@, k, v)]
Enter(st) == [st EXCEPT !.sc = Append(@, [x \in {} |-> Nul])]
Leave(st) == [st EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1)]

\* evaluation of an expression: [ok, v, st] (blocks assign variables while they are parsed)
RECURSIVE Ev(_, _)
RECURSIVE EvL(_, _, _, _)
RECURSIVE Ex(_, _)
R(r, st) == [ok |-> r.ok, v |-> IF r.ok THEN r.v ELSE Nul, st |-> st]
Fail(st) == [ok |-> FALSE, v |-> Nul, st |-> st]
Ev(x, st) ==
    CASE x.k = "int" -> R(Lit(x), st)
      [] x.k = "str" -> R(Ok(Str(x.s)), st)
      [] x.k = "bool" -> R(Ok(Bool(x.b)), st)
      [] x.k = "null" -> R(Ok(Nul), st)
      [] x.k = "bad" -> Fail(st)
      [] x.k = "var" -> R(Get(st, x.n), st)
      [] x.k = "op" -> LET l == Ev(x.l, st) IN IF ~l.ok THEN l ELSE LET r == Ev(x.r, l.st) IN IF ~r.ok THEN r ELSE R(Op(x.op, l.v, r.v), r.st)
      [] x.k = "neg" -> LET l == Ev(x.l, st) IN IF ~l.ok \/ l.v.ty # "num" THEN Fail(l.st) ELSE R(Chk(Neg(l.v)), l.st)
      [] x.k = "not" -> LET l == Ev(x.l, st) IN IF ~l.ok \/ l.v.ty # "bool" THEN Fail(l.st) ELSE R(Ok(Bool(~l.v.b)), l.st)
      [] x.k = "castint" -> LET l == Ev(x.l, st) IN IF ~l.ok THEN l ELSE IF l.v.ty = "num" THEN l ELSE IF l.v.ty = "bool" THEN R(Ok(Num(FALSE, IF l.v.b THEN <<1>> ELSE <<>>)), l.st)
                               ELSE IF l.v.ty = "str" /\ x.num.ok THEN R(Lit(x.num), l.st) ELSE Fail(l.st)
      [] x.k = "caststr" -> LET l == Ev(x.l, st) IN IF ~l.ok THEN l ELSE R(Ok(Str(Show(l.v))), l.st)
      [] x.k = "list" -> EvL(x.l, 1, <<>>, st)
      [] x.k = "kv" -> LET r == EvL(x.l, 1, <<>>, st) IN IF ~r.ok THEN r ELSE R(Ok(List([i \in 1..(Len(r.v.l) \div 2) |-> List(<<r.v.l[2 * i - 1], r.v.l[2 * i]>>)])), r.st)
      [] x.k = "block" -> LET s == Ex(x.b, Enter(st)) IN IF s.ok THEN R(Ok(Act), Leave(s)) ELSE Fail(s)
EvL(l, i, acc, st) == IF i > Len(l) THEN R(Ok(List(acc)), st) ELSE LET r == Ev(l[i], st) IN IF ~r.ok THEN r ELSE EvL(l, i + 1, Append(acc, r.v), r.st)
\* statements
One(x, st) ==
    CASE x.k = "set" -> LET r == Ev(x.e, st) IN IF r.ok THEN Set(r.st, x.how, x.n, r.v) ELSE [r.st EXCEPT !.ok = FALSE]
      [] x.k = "print" -> LET r == Ev(x.e, st) IN IF r.ok THEN [r.st EXCEPT !.out = Append(@, Show(r.v))] ELSE [r.st EXCEPT !.ok = FALSE]
      [] x.k = "if" -> LET s == Ex(x.b, st) IN IF s.ok THEN Ex(x.e, s) ELSE s          \* both branches are parsed; no new scope
      [] x.k = "setup" -> Ex(x.b, st)
      [] x.k = "include" -> LET s == Ex(x.b, Enter(st)) IN IF s.ok THEN Leave(s) ELSE s
Ex(p, st) == IF p = <<>> \/ ~st.ok THEN st ELSE Ex(Tail(p), One(p[1], st))
St0 == [sc |-> <<[x \in {} |-> Nul]>>, gl |-> [x \in {} |-> Nul], out |-> <<>>, ok |-> TRUE]
Load(p) == Ex(p, St0)
=============================================================================
