------------------------------- MODULE Access -------------------------------
(* Address prefixes: a table of prefixes (bit strings), the text forms of addresses and networks, and the
   access decision made from them.

   A key is a sequence of 0/1.  The table maps keys to positive numbers; the data structure of the implementation is a
   path compressed tree, the specification is the finite map. *)
EXTENDS Integers, Sequences, FiniteSets

IsPrefix(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Put(t, k, v) == [x \in DOMAIN t \cup {k} |-> IF x = k THEN v ELSE t[x]]
Del(t, k) == [x \in DOMAIN t \ {k} |-> t[x]]
Exact(t, k) == IF k \in DOMAIN t THEN t[k] ELSE 0
Longest(t, k) == LET P == {p \in DOMAIN t : IsPrefix(p, k)} IN
                 IF P = {} THEN 0 ELSE t[CHOOSE p \in P : \A q \in P : Len(q) <= Len(p)]

(* ------------------------------------------------------------------ bits *)
Pow2(n) == <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]
ByteBits(b) == [i \in 1..8 |-> (b \div Pow2(8 - i)) % 2]
RECURSIVE Bits(_)
Bits(bs) == IF bs = <<>> THEN <<>> ELSE ByteBits(bs[1]) \o Bits(Tail(bs))
Key(bs, n) == SubSeq(Bits(bs), 1, n)
Mapped(v4) == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255>> \o v4
(* an address (4 or 16 bytes) lies in a network (4 or 16 bytes, n bits); addresses of the families are compared through
   the mapped form *)
InNet(a, m, n) == IF Len(a) = Len(m) THEN IsPrefix(Key(m, n), Bits(a))
                  ELSE IF Len(a) = 4 THEN IsPrefix(Key(m, n), Bits(Mapped(a)))
                  ELSE IsPrefix(Bits(Mapped(<<>>)) \o Key(m, n), Bits(a))

(* ------------------------------------------------------------------ text forms; text is a sequence of character codes *)
Digit(c) == c >= 48 /\ c <= 57
Hex(c) == Digit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
AllHex(s) == s # <<>> /\ \A i \in 1..Len(s) : Hex(s[i])
RECURSIVE Dec(_, _)
Dec(s, acc) == IF s = <<>> THEN acc ELSE Dec(Tail(s), IF acc > 100000 THEN acc ELSE 10 * acc + s[1] - 48)   \* saturates
RECURSIVE HexNum(_, _)
HexNum(s, acc) == IF s = <<>> THEN acc ELSE HexNum(Tail(s), 16 * acc + HexVal(s[1]))
Num(s, max) == AllDigits(s) /\ Dec(s, 0) <= max
RECURSIVE Split(_, _, _)
Split(s, c, acc) == IF s = <<>> THEN <<acc>>
                    ELSE IF s[1] = c THEN <<acc>> \o Split(Tail(s), c, <<>>) ELSE Split(Tail(s), c, Append(acc, s[1]))
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
First(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
Before(s, c) == IF Has(s, c) THEN SubSeq(s, 1, First(s, c) - 1) ELSE s
After(s, c) == IF Has(s, c) THEN SubSeq(s, First(s, c) + 1, Len(s)) ELSE <<>>
Bad == [ok |-> FALSE]

Quad(s) == LET p == Split(s, 46, <<>>) IN
           IF Len(p) = 4 /\ \A i \in 1..4 : Num(p[i], 255) THEN [ok |-> TRUE, ip |-> [i \in 1..4 |-> Dec(p[i], 0)]] ELSE Bad
(* "a.b.c.d", then "/bits" if a network is asked for, then ":port" if a port is asked for *)
Parse4(s, net, port) ==
  LET q == Before(s, 58)  hasport == Has(s, 58)  pt == After(s, 58)
      a == Before(q, 47)  hasnet == Has(q, 47)   nt == After(q, 47)
      r == Quad(a) IN
  IF ~r.ok \/ (hasport /\ (~port \/ ~Num(pt, 65535))) \/ (hasnet /\ (~net \/ ~Num(nt, 32))) THEN Bad
  ELSE [ok |-> TRUE, ip |-> r.ip, net |-> IF hasnet THEN Dec(nt, 0) ELSE 32, port |-> IF hasport THEN Dec(pt, 0) ELSE 0]

(* groups: 1-4 hexadecimal digits each, the last one may be a dotted quad; the empty text has no group *)
RECURSIVE Groups(_)
Groups(p) == IF p = <<>> THEN <<>>
             ELSE LET g == p[1] IN
                  IF Len(p) = 1 /\ Has(g, 46) THEN (IF Quad(g).ok THEN Quad(g).ip ELSE <<-1>>)
                  ELSE IF AllHex(g) /\ Len(g) <= 4 THEN LET v == HexNum(g, 0) IN <<v \div 256, v % 256>> \o Groups(Tail(p))
                  ELSE <<-1>>
GroupBytes(s) == IF s = <<>> THEN <<>> ELSE Groups(Split(s, 58, <<>>))
Good(bs) == \A i \in 1..Len(bs) : bs[i] >= 0
DoubleAt(s) == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
Addr6(s) ==
  LET D == DoubleAt(s) IN
  IF D = {} THEN (LET b == GroupBytes(s) IN IF Good(b) /\ Len(b) = 16 THEN [ok |-> TRUE, ip |-> b] ELSE Bad)
  ELSE LET i == CHOOSE x \in D : \A y \in D : x <= y
           l == SubSeq(s, 1, i - 1)  r == SubSeq(s, i + 2, Len(s))
           lb == GroupBytes(l)  rb == GroupBytes(r) IN
       \* the part in front of "::" has no dotted quad; "::" stands for at least one group
       IF Good(lb) /\ Good(rb) /\ ~Has(l, 46) /\ Len(lb) + Len(rb) <= 14
       THEN [ok |-> TRUE, ip |-> lb \o [k \in 1..(16 - Len(lb) - Len(rb)) |-> 0] \o rb] ELSE Bad
(* addr | addr/net | [addr] | [addr]/net | [addr/net] | and ":port" behind a bracket form *)
Parse6(s, net, port) ==
  IF s # <<>> /\ s[1] = 91 THEN
    IF ~Has(s, 93) THEN Bad
    ELSE LET in == SubSeq(s, 2, First(s, 93) - 1)   rest == After(s, 93)
             a == Addr6(Before(in, 47))  innet == Has(in, 47)
             r1 == Before(rest, 58)  hasport == Has(rest, 58)  pt == After(rest, 58)
             outnet == r1 # <<>>
             nt == IF innet THEN After(in, 47) ELSE IF outnet THEN Tail(r1) ELSE <<>> IN
         IF ~a.ok \/ (innet /\ outnet) \/ (outnet /\ r1[1] # 47) \/ ((innet \/ outnet) /\ (~net \/ ~Num(nt, 128)))
            \/ (hasport /\ (~port \/ ~Num(pt, 65535))) THEN Bad
         ELSE [ok |-> TRUE, ip |-> a.ip, net |-> IF innet \/ outnet THEN Dec(nt, 0) ELSE 128, port |-> IF hasport THEN Dec(pt, 0) ELSE 0]
  ELSE LET a == Addr6(Before(s, 47))  hasnet == Has(s, 47)  nt == After(s, 47) IN
       IF ~a.ok \/ (hasnet /\ (~net \/ ~Num(nt, 128))) THEN Bad
       ELSE [ok |-> TRUE, ip |-> a.ip, net |-> IF hasnet THEN Dec(nt, 0) ELSE 128, port |-> 0]

(* ------------------------------------------------------------------ access rules
   rules: sequence of [allow, text]; text "all" covers every address of both families.  The most precise network
   containing the address decides; among equal networks the one given last; an address no rule covers is denied. *)
ALL == <<97, 108, 108>>
Net(text) == IF text = ALL THEN [ok |-> TRUE, fam |-> 0, key |-> <<>>]
             ELSE LET a == Parse4(text, TRUE, FALSE) IN
                  IF a.ok THEN [ok |-> TRUE, fam |-> 4, key |-> Key(a.ip, a.net)]
                  ELSE LET b == Parse6(text, TRUE, FALSE) IN
                       IF b.ok THEN [ok |-> TRUE, fam |-> 16, key |-> Key(b.ip, b.net)] ELSE [ok |-> FALSE]
RulesOk(rules) == \A i \in 1..Len(rules) : Net(rules[i].text).ok
Allowed(rules, addr) ==
  LET C == {i \in 1..Len(rules) : LET n == Net(rules[i].text) IN n.fam \in {0, Len(addr)} /\ IsPrefix(n.key, Bits(addr))} IN
  IF C = {} THEN FALSE
  ELSE rules[CHOOSE i \in C : \A j \in C : LET li == Len(Net(rules[i].text).key) lj == Len(Net(rules[j].text).key) IN lj < li \/ (lj = li /\ j <= i)].allow
=============================================================================
