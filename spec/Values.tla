------------------------------- MODULE Values -------------------------------
(* Typed values: when a word is a value of a declared type, and how it prints. *)
(* Numbers of any size are sequences of decimal digits without leading zeros.  *)
EXTENDS Text

\* ------------------------------------------------------------ magnitudes
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d
MagLE(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE Cmp(a, b) <= 0
\* m * k + c, most significant digit first
RECURSIVE MulAddR(_, _, _)
MulAddR(m, k, c) ==
    IF m = << >> THEN (IF c = 0 THEN << >> ELSE MulAddR(<< >>, k, c \div 10) \o << c % 10 >>)
    ELSE LET v == m[Len(m)] * k + c
         IN MulAddR(SubSeq(m, 1, Len(m) - 1), k, v \div 10) \o << v % 10 >>
MulAdd(m, k, c) == LET r == StripZeros(MulAddR(m, k, c)) IN IF r = << >> THEN << 0 >> ELSE r
RECURSIVE NumFrom(_, _, _, _)
NumFrom(s, i, base, acc) == IF i > Len(s) THEN acc ELSE NumFrom(s, i + 1, base, MulAdd(acc, base, HexVal(s[i])))
Mag10(s) == LET r == StripZeros([i \in 1..Len(s) |-> s[i] - 48]) IN r
ToText(m) == [i \in 1..Len(m) |-> m[i] + 48]
NatMag(n) == NumFrom(<< >>, 1, 10, MulAdd(<< 0 >>, 10, 0))      \* zero
RECURSIVE NatDigits(_)
NatDigits(n) == IF n < 10 THEN << n >> ELSE NatDigits(n \div 10) \o << n % 10 >>

Bad == [ok |-> FALSE, neg |-> FALSE, m |-> << 0 >>]
Signed(neg, m) == [ok |-> TRUE, neg |-> neg /\ m # << 0 >>, m |-> m]
NumLE(a, b) == IF a.neg /\ ~b.neg THEN TRUE
               ELSE IF ~a.neg /\ b.neg THEN FALSE
               ELSE IF a.neg THEN MagLE(b.m, a.m) ELSE MagLE(a.m, b.m)
NumText(a) == (IF a.neg THEN << 45 >> ELSE << >>) \o ToText(a.m)

\* an integer word: sign, then 0x hexadecimal, 0 octal, or decimal
ParseInt(s) ==
    LET sg == s # << >> /\ s[1] \in {43, 45}
        u  == IF sg THEN Tail(s) ELSE s
        neg == sg /\ s[1] = 45
    IN IF u = << >> THEN Bad
       ELSE IF Len(u) > 2 /\ u[1] = 48 /\ u[2] \in {88, 120}
            THEN IF \A i \in 3..Len(u) : HexDigit(u[i])
                 THEN Signed(neg, NumFrom(u, 3, 16, << 0 >>)) ELSE Bad
       ELSE IF u[1] = 48 /\ Len(u) > 1
            THEN IF \A i \in 1..Len(u) : u[i] >= 48 /\ u[i] <= 55
                 THEN Signed(neg, NumFrom(u, 1, 8, << 0 >>)) ELSE Bad
       ELSE IF \A i \in 1..Len(u) : Digit(u[i]) THEN Signed(neg, Mag10(u)) ELSE Bad

D(s) == s       \* digit tuples below
Max8 == <<1,2,7>>  Min8 == <<1,2,8>>  UMax8 == <<2,5,5>>
Max16 == <<3,2,7,6,7>>  Min16 == <<3,2,7,6,8>>  UMax16 == <<6,5,5,3,5>>
Max32 == <<2,1,4,7,4,8,3,6,4,7>>  Min32 == <<2,1,4,7,4,8,3,6,4,8>>  UMax32 == <<4,2,9,4,9,6,7,2,9,5>>
Max64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
Min64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
UMax64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
SIntTypes == {"int8", "int16", "int32", "int64"}
UIntTypes == {"uint8", "uint16", "uint32", "uint64"}
IntTypes == SIntTypes \cup UIntTypes
StrTypes == {"string", "rest", "interface"}
TypeMax(t) == CASE t = "int8" -> Max8 [] t = "int16" -> Max16 [] t = "int32" -> Max32 [] t = "int64" -> Max64
                [] t = "uint8" -> UMax8 [] t = "uint16" -> UMax16 [] t = "uint32" -> UMax32 [] OTHER -> UMax64
TypeMin(t) == CASE t = "int8" -> Min8 [] t = "int16" -> Min16 [] t = "int32" -> Min32 [] OTHER -> Min64
InType(t, a) == IF a.neg THEN t \in SIntTypes /\ MagLE(a.m, TypeMin(t)) ELSE MagLE(a.m, TypeMax(t))
IntWord(t, s) == LET a == ParseInt(s) IN
                 IF a.ok /\ InType(t, a) /\ ~(t \in UIntTypes /\ Has(s, 45)) THEN a ELSE Bad

\* a decimal word with at most fd fraction digits, scaled by 10^fd
DecWord(s, fd) ==
    LET sg == s # << >> /\ s[1] \in {43, 45}
        u  == IF sg THEN Tail(s) ELSE s
        dot == Find(u, 46, 1)
        ip == SubSeq(u, 1, dot - 1)
        fp == From(u, dot + 1)
        m  == StripZeros(<< 0 >> \o [i \in 1..Len(ip) |-> ip[i] - 48] \o [i \in 1..Len(fp) |-> fp[i] - 48]
                         \o [i \in 1..(fd - Len(fp)) |-> 0])
        a  == Signed(sg /\ s[1] = 45, m)
    IN IF (\A i \in 1..Len(ip) : Digit(ip[i])) /\ (\A i \in 1..Len(fp) : Digit(fp[i]))
          /\ Len(ip) + Len(fp) > 0 /\ Len(fp) <= fd /\ InType("int64", a)
       THEN a ELSE Bad
DecText(a, fd) ==
    LET d == IF Len(a.m) > fd THEN a.m ELSE [i \in 1..(fd + 1 - Len(a.m)) |-> 0] \o a.m
        k == Len(d) - fd
    IN (IF a.neg THEN << 45 >> ELSE << >>) \o ToText(SubSeq(d, 1, k)) \o << 46 >> \o ToText(From(d, k + 1))

\* ------------------------------------------------------------ addresses
Octet(s) == Len(s) \in 1..3 /\ (\A i \in 1..Len(s) : Digit(s[i])) /\ (Len(s) > 1 => s[1] # 48)
            /\ MagLE(Mag10(s), UMax8)
IsIPv4(s) == LET p == Split(s, 46) IN Len(p) = 4 /\ \A i \in 1..4 : Octet(p[i])
\* colon separated groups; one empty run "::"; canonical text has the first longest run of zero
\* groups (two or more) shortened
IsGroup(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : HexDigit(s[i])
GroupText(s) == LET RECURSIVE Z(_)
                    Z(x) == IF Len(x) > 1 /\ x[1] = 48 THEN Z(Tail(x)) ELSE x
                IN Lower(Z(s))
DoubleColons(s) == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
Groups(s) == IF s = << >> THEN << >> ELSE Split(s, 58)
IPv6Parts(s) ==      \* sequence of 8 group texts, or << >> when not an address
    LET dc == DoubleColons(s) IN
    IF Cardinality(dc) > 1 THEN << >>
    ELSE IF dc = {} THEN LET g == Groups(s) IN
         IF Len(g) = 8 /\ \A i \in 1..8 : IsGroup(g[i]) THEN [i \in 1..8 |-> GroupText(g[i])] ELSE << >>
    ELSE LET k == CHOOSE i \in dc : TRUE
             a == Groups(SubSeq(s, 1, k - 1))  b == Groups(From(s, k + 2))
         IN IF Len(a) + Len(b) <= 7 /\ (\A i \in 1..Len(a) : IsGroup(a[i])) /\ (\A i \in 1..Len(b) : IsGroup(b[i]))
            THEN [i \in 1..Len(a) |-> GroupText(a[i])] \o [i \in 1..(8 - Len(a) - Len(b)) |-> << 48 >>]
                 \o [i \in 1..Len(b) |-> GroupText(b[i])]
            ELSE << >>
RECURSIVE Join(_, _)
Join(p, sep) == IF p = << >> THEN << >> ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o sep \o Join(Tail(p), sep)
IPv6Text(p) ==
    LET Run(i) == LET RECURSIVE R(_)
                      R(j) == IF j > 8 \/ p[j] # << 48 >> THEN 0 ELSE 1 + R(j + 1) IN R(i)
        longest == CHOOSE n \in 0..8 : (\E i \in 1..8 : Run(i) = n) /\ \A i \in 1..8 : Run(i) <= n
        st == CHOOSE i \in 1..8 : Run(i) = longest /\ \A j \in 1..(i - 1) : Run(j) < longest
    IN IF longest < 2 THEN Join(p, << 58 >>)
       ELSE Join(SubSeq(p, 1, st - 1), << 58 >>) \o << 58, 58 >> \o Join(From(p, st + longest), << 58 >>)
MaskOf(s) == LET k == Find(s, 47, 1) IN IF k > Len(s) THEN Bad ELSE IntWord("int32", From(s, k + 1))
BeforeMask(s) == SubSeq(s, 1, Find(s, 47, 1) - 1)
IsMac(s) == Len(s) = 17 /\ \A i \in 1..17 : IF i % 3 = 0 THEN s[i] = 58 ELSE HexDigit(s[i])
IsUuid(s) == Len(s) = 36 /\ \A i \in 1..36 : IF i \in {9, 14, 19, 24} THEN s[i] = 45 ELSE HexDigit(s[i])
UrlText(s) ==        \* << >> when not a URL
    LET k == Find(s, 58, 1) IN
    IF k + 2 > Len(s) \/ s[k + 1] # 47 \/ s[k + 2] # 47 THEN << >>
    ELSE LET proto == SubSeq(s, 1, k - 1)
             r == From(s, k + 3)
             at == Find(r, 64, 1)
             cred == IF at > Len(r) THEN << >> ELSE SubSeq(r, 1, at - 1)
             hp == IF at > Len(r) THEN r ELSE From(r, at + 1)
             c == Find(cred, 58, 1)
             user == SubSeq(cred, 1, c - 1)
             pass == From(cred, c + 1)
             sl == Find(hp, 47, 1)
         IN proto \o << 58, 47, 47 >> \o user \o (IF pass = << >> THEN << >> ELSE << 58 >> \o pass)
            \o (IF user \o pass = << >> THEN << >> ELSE << 64 >>)
            \o SubSeq(hp, 1, sl - 1) \o << 47 >> \o From(hp, sl + 1)
\* YYYY-MM-DD[T ]hh:mm:ss[.f][Z]
TimeText(s) ==
    LET dg(i, n) == i + n - 1 <= Len(s) /\ \A j \in i..(i + n - 1) : Digit(s[j])
        num(i, n) == LET RECURSIVE N(_)
                         N(j) == IF j < i THEN 0 ELSE N(j - 1) * 10 + (s[j] - 48) IN N(i + n - 1)
        base == dg(1, 4) /\ dg(6, 2) /\ dg(9, 2) /\ dg(12, 2) /\ dg(15, 2) /\ dg(18, 2)
                /\ s[5] = 45 /\ s[8] = 45 /\ s[11] \in {84, 32} /\ s[14] = 58 /\ s[17] = 58
                /\ num(1, 4) \in 1970..2104 /\ num(6, 2) \in 1..12 /\ num(9, 2) \in 1..31
                /\ num(12, 2) <= 23 /\ num(15, 2) <= 59 /\ num(18, 2) <= 59
        dot == Len(s) >= 20 /\ s[20] = 46
        RECURSIVE FracEnd(_)
        FracEnd(j) == IF j <= Len(s) /\ j <= 26 /\ Digit(s[j]) THEN FracEnd(j + 1) ELSE j
        fe == IF dot THEN FracEnd(21) ELSE 20
        frac == IF dot THEN SubSeq(s, 21, fe - 1) ELSE << >>
        tail == From(s, fe)
    IN IF Len(s) >= 19 /\ base /\ (dot => Len(frac) > 0) /\ tail \in {<< >>, << 90 >>}
       THEN SubSeq(s, 1, 10) \o << 84 >> \o SubSeq(s, 12, 19) \o << 46 >> \o frac
            \o [i \in 1..(6 - Len(frac)) |-> 48] \o << 90 >>
       ELSE << >>

\* ------------------------------------------------------------ patterns
(* A pattern is a tree; Ends(r, s, i) are the positions after a match of r that *)
(* starts at position i of s.                                                  *)
RECURSIVE Ends(_, _, _), EndsSet(_, _, _), EndsCat(_, _, _), Closure(_, _, _)
Ends(r, s, i) ==
    CASE r.k = "lit" -> IF i <= Len(s) /\ s[i] = r.c THEN {i + 1} ELSE {}
      [] r.k = "any" -> IF i <= Len(s) THEN {i + 1} ELSE {}
      [] r.k = "cls" -> IF i <= Len(s) /\ (r.neg # (\E j \in 1..Len(r.rs) : s[i] >= r.rs[j][1] /\ s[i] <= r.rs[j][2]))
                        THEN {i + 1} ELSE {}
      [] r.k = "cat" -> EndsCat(r.es, s, {i})
      [] r.k = "alt" -> UNION {Ends(r.es[j], s, i) : j \in 1..Len(r.es)}
      [] r.k = "opt" -> {i} \cup Ends(r.e, s, i)
      [] r.k = "star" -> Closure(r.e, s, {i})
      [] r.k = "plus" -> Closure(r.e, s, Ends(r.e, s, i))
EndsSet(r, s, ps) == UNION {Ends(r, s, p) : p \in ps}
EndsCat(es, s, ps) == IF es = << >> THEN ps ELSE EndsCat(Tail(es), s, EndsSet(Head(es), s, ps))
Closure(r, s, ps) == LET n == ps \cup EndsSet(r, s, ps) IN IF n = ps THEN ps ELSE Closure(r, s, n)
Matches(r, s) == (Len(s) + 1) \in Ends(r, s, 1)

\* ------------------------------------------------------------ values of a variable
(* v: [t, fd, ranges, regex]: ranges << [haslo, lo, hi] >>, texts as written;   *)
(* regex << [inv, re] >>, all of which must hold                                *)
No == [ok |-> FALSE, txt |-> << >>]
Yes(x) == [ok |-> TRUE, txt |-> x]
InRanges(a, v, P(_)) == v.ranges = << >> \/ \E i \in 1..Len(v.ranges) :
        (v.ranges[i].haslo => NumLE(P(v.ranges[i].lo), a)) /\ NumLE(a, P(v.ranges[i].hi))
\* every pattern and the length intervals
StringOK(s, v) == /\ \A i \in 1..Len(v.regex) : Matches(v.regex[i].re, s) # v.regex[i].inv
                  /\ InRanges(Signed(FALSE, NatDigits(Len(s))), v, ParseInt)
TrueText == <<116,114,117,101>>
FalseText == <<102,97,108,115,101>>
(* the value of word w for variable v *)
ValueOf(v, w) ==
    CASE v.t \in IntTypes -> LET a == IntWord(v.t, w) IN
                             IF a.ok /\ InRanges(a, v, ParseInt) THEN Yes(NumText(a)) ELSE No
      [] v.t = "decimal64" -> LET a == DecWord(w, v.fd)
                                  P(x) == DecWord(x, v.fd)
                              IN IF a.ok /\ InRanges(a, v, P) THEN Yes(DecText(a, v.fd)) ELSE No
      [] v.t \in {"string", "rest"} -> LET s == Unescape(w, 1) IN IF StringOK(s, v) THEN Yes(s) ELSE No
      [] v.t = "interface" -> Yes(w)
      [] v.t = "bool" -> IF w \in {TrueText, << 111, 110 >>, <<101,110,97,98,108,101>>} THEN Yes(TrueText)
                         ELSE IF w \in {FalseText, << 111, 102, 102 >>, <<100,105,115,97,98,108,101>>} THEN Yes(FalseText) ELSE No
      [] v.t = "ipv4addr" -> IF IsIPv4(w) THEN Yes(w) ELSE No
      [] v.t = "ipv4prefix" -> LET m == MaskOf(w) IN
                               IF m.ok /\ ~m.neg /\ MagLE(m.m, << 3, 2 >>) /\ IsIPv4(BeforeMask(w))
                               THEN Yes(BeforeMask(w) \o << 47 >> \o NumText(m)) ELSE No
      [] v.t = "ipv6addr" -> LET p == IPv6Parts(w) IN IF p # << >> THEN Yes(IPv6Text(p)) ELSE No
      [] v.t = "ipv6prefix" -> LET m == MaskOf(w)  p == IPv6Parts(BeforeMask(w)) IN
                               IF m.ok /\ ~m.neg /\ MagLE(m.m, << 1, 2, 8 >>) /\ p # << >>
                               THEN Yes(IPv6Text(p) \o << 47 >> \o NumText(m)) ELSE No
      [] v.t = "macaddr" -> IF IsMac(w) THEN Yes(Lower(w)) ELSE No
      [] v.t = "uuid" -> IF IsUuid(w) THEN Yes(Lower(w)) ELSE No
      [] v.t = "url" -> LET u == UrlText(w) IN IF u # << >> THEN Yes(u) ELSE No
      [] v.t = "time" -> LET u == TimeText(w) IN IF u # << >> THEN Yes(u) ELSE No
      [] OTHER -> No
================================================================================
