--------------------------------- MODULE Vec ---------------------------------
(* Variable vectors (cligen_cvec.c, cligen_cv.c) as sequences of values.       *)
(* An element: type t, name n, keyword mark k, flags f (a set of bit numbers), *)
(* value v.  Names and values are options: << >> or << text >>; the value of a *)
(* typed element is its canonical text.                                        *)
(* State: three vectors, each << >> (none) or << [name, els] >>, and one       *)
(* separate variable.                                                          *)
EXTENDS Text, TLC
NV == 3
None == << >>
VecInit == [v |-> [i \in 1..NV |-> None], r |-> None]
El(t, n, v) == [t |-> t, n |-> n, k |-> 0, f |-> {}, v |-> v]
IntTypes == {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}
StrTypes == {"string", "rest", "interface"}
Zero(t) == IF t \in IntTypes THEN << << 48 >> >> ELSE None
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Del(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
RECURSIVE Cat(_, _)
Cat(ss, sep) == IF ss = << >> THEN << >> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Cat(Tail(ss), sep)
Txt(v) == IF v = None THEN << >> ELSE v[1]

(* order: -1, 0, 1; 2 where only being different is said *)
Neg(s) == s # << >> /\ s[1] = 45
Abs(s) == IF Neg(s) THEN Tail(s) ELSE s
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
CmpAbs(a, b) == IF Len(a) # Len(b) THEN Sign(Len(a) - Len(b)) ELSE Cmp(a, b)
CmpNum(a, b) == IF Neg(a) /\ ~Neg(b) THEN -1 ELSE IF ~Neg(a) /\ Neg(b) THEN 1
                ELSE IF Neg(a) THEN CmpAbs(Abs(b), Abs(a)) ELSE CmpAbs(a, b)
Compare(a, b) == IF a.t # b.t /\ ~(a.t \in StrTypes /\ b.t \in StrTypes) THEN 2
                 ELSE IF a.t \in IntTypes \cup {"decimal64"} THEN CmpNum(Txt(a.v), Txt(b.v))
                 ELSE IF a.t \in StrTypes THEN Cmp(Txt(a.v), Txt(b.v))
                 ELSE IF a.v = b.v THEN 0 ELSE 2

PrintVal(e) == IF e.t \in {"string", "interface"} /\ e.v # None THEN << 34 >> \o e.v[1] \o << 34 >> ELSE Txt(e.v)
COLON == << 32, 58, 32 >>   EQS == << 32, 61, 32 >>
PrintEls(els) == [i \in 1..Len(els) |-> Digits(i - 1) \o COLON \o (IF els[i].n = None THEN << >> ELSE els[i].n[1] \o EQS)
                                        \o PrintVal(els[i]) \o << NL >>]
BufEls(els) == [i \in 1..Len(els) |-> Digits(i - 1) \o COLON \o els[i].n[1] \o EQS \o Txt(els[i].v) \o << NL >>]

(* a text as a vector of its lines, leading blanks removed *)
Lines(text) == LET ls == [i \in 1..Len(Split(text, NL)) |-> LTrim(Split(text, NL)[i])]
               IN IF ls[Len(ls)] = << >> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
Start(s) == El("rest", << << 99, 109, 100 >> >>, << s >>)
Strs(ss) == [i \in 1..Len(ss) |-> El("string", None, << ss[i] >>)]
Vector(name, els) == << [name |-> name, els |-> els] >>

Out(S, ret) == [s |-> S, ret |-> ret, out |-> << >>]
OutT(S, ret, out) == [s |-> S, ret |-> ret, out |-> out]
Els(S, i) == S.v[i][1].els
SetEls(S, i, els) == [S EXCEPT !.v[i][1].els = els]
Valid(S, i, k) == k >= 1 /\ k <= Len(Els(S, i))
FromTo(n, m) == [i \in 1..(IF m >= n THEN m - n + 1 ELSE 0) |-> n + i - 1]
\* index arguments count from 1; steps on a vector or element that is not there are not taken: ret -9
Skip(S) == Out(S, -9)
Needs(e) == IF e.op \in {"new", "start", "fromvar", "txt", "words"} THEN {} ELSE {"i"}
VStep(S, e) ==
    CASE e.op = "new" -> Out([S EXCEPT !.v[e.i] = Vector(None, [j \in 1..e.n |-> El("err", None, None)])], e.n)
      [] e.op = "start" -> Out([S EXCEPT !.v[e.i] = Vector(None, << Start(e.s) >>)], 1)
      [] e.op = "txt" -> LET ls == Lines(e.s) IN Out([S EXCEPT !.v[e.i] = Vector(None, Strs(ls))], Len(ls))
      [] e.op = "words" -> LET w == Words(e.s) IN
            Out([S EXCEPT !.v[e.i] = Vector(None, << Start(e.s) >> \o Strs(w.toks)),
                          !.v[e.j] = Vector(None, << Start(e.s) >> \o Strs(w.rests))], Len(w.toks) + 1)
      [] e.op = "fromvar" -> IF S.r = None THEN Skip(S) ELSE Out([S EXCEPT !.v[e.i] = Vector(None, S.r)], 1)
      [] S.v[e.i] = None -> Skip(S)
      [] e.op = "free" -> Out([S EXCEPT !.v[e.i] = None], 0)
      [] e.op = "empty" -> Out([S EXCEPT !.v[e.i] = Vector(None, << >>)], 0)
      [] e.op = "add" -> Out(SetEls(S, e.i, Append(Els(S, e.i), El(e.t, e.name, << e.s >>))), Len(Els(S, e.i)) + 1)
      [] e.op = "append" -> IF S.v[e.j] = None \/ ~Valid(S, e.j, e.k) THEN Skip(S)
                            ELSE Out(SetEls(S, e.i, Append(Els(S, e.i), Els(S, e.j)[e.k])), Len(Els(S, e.i)) + 1)
      [] e.op = "put" -> IF S.r = None THEN Skip(S)          \* appends a copy of the separate variable
                         ELSE Out(SetEls(S, e.i, Append(Els(S, e.i), S.r[1])), Len(Els(S, e.i)) + 1)
      [] e.op = "take" -> IF ~Valid(S, e.i, e.k) THEN Skip(S)       \* the separate variable becomes a copy
                          ELSE Out([S EXCEPT !.r = << Els(S, e.i)[e.k] >>], 0)
      [] e.op = "del" -> IF ~Valid(S, e.i, e.k) THEN Skip(S)
                         ELSE Out(SetEls(S, e.i, Del(Els(S, e.i), e.k)), Len(Els(S, e.i)) - 1)
      [] e.op = "deli" -> IF ~Valid(S, e.i, e.k) THEN Out(S, -1)
                          ELSE Out(SetEls(S, e.i, Del(Els(S, e.i), e.k)), Len(Els(S, e.i)) - 1)
      [] e.op = "delother" -> Out(S, Len(Els(S, e.i)))      \* a variable that is not in the vector
      [] e.op = "len" -> Out(S, Len(Els(S, e.i)))
      [] e.op = "get" -> Out(S, IF Valid(S, e.i, e.k) THEN e.k ELSE 0)
      [] e.op = "gets" -> IF Valid(S, e.i, e.k) /\ Els(S, e.i)[e.k].t \notin StrTypes THEN Skip(S)
                          ELSE OutT(S, IF Valid(S, e.i, e.k) THEN 1 ELSE 0, IF Valid(S, e.i, e.k) THEN Txt(Els(S, e.i)[e.k].v) ELSE << >>)
      [] e.op = "each" -> OutT(S, 0, FromTo(1, Len(Els(S, e.i))))
      [] e.op = "each1" -> OutT(S, 0, FromTo(2, Len(Els(S, e.i))))
      [] e.op = "next" -> Out(S, IF e.k = 0 THEN (IF Els(S, e.i) = << >> THEN 0 ELSE 1)
                                 ELSE IF Valid(S, e.i, e.k) /\ e.k < Len(Els(S, e.i)) THEN e.k + 1 ELSE IF ~Valid(S, e.i, e.k) THEN -9 ELSE 0)
      [] e.op = "find" -> Out(S, SelectInSeq(Els(S, e.i), LAMBDA x : x.n = e.name))
      [] e.op = "findkw" -> Out(S, SelectInSeq(Els(S, e.i), LAMBDA x : x.n = e.name /\ x.k = 1))
      [] e.op = "findvar" -> Out(S, SelectInSeq(Els(S, e.i), LAMBDA x : x.n = e.name /\ x.k = 0))
      [] e.op = "findstr" -> LET w == SelectInSeq(Els(S, e.i), LAMBDA x : x.n = e.name) IN
                             IF w # 0 /\ Els(S, e.i)[w].t \in StrTypes THEN OutT(S, 1, Txt(Els(S, e.i)[w].v)) ELSE OutT(S, 0, << >>)
      [] e.op = "dup" -> Out([S EXCEPT !.v[e.j] = S.v[e.i]], Len(Els(S, e.i)))
      [] e.op = "name" -> Out([S EXCEPT !.v[e.i][1].name = e.name], 0)
      [] e.op = "selfname" -> Out(S, 0)                     \* set to its own name, for vector and elements
      [] e.op = "print" -> OutT(S, 0, (IF S.v[e.i][1].name = None THEN << >> ELSE S.v[e.i][1].name[1] \o << 58, NL >>)
                                      \o Cat(PrintEls(Els(S, e.i)), << >>))
      [] e.op = "tobuf" -> IF \E x \in ToSet(Els(S, e.i)) : x.n = None \/ (x.t \in StrTypes /\ x.v = None) THEN Skip(S)
                           ELSE OutT(S, 0, Cat(BufEls(Els(S, e.i)), << >>))
      [] e.op = "nokeys" -> LET x == Els(S, e.i) IN
                            IF x = << >> THEN Out(S, 0)
                            ELSE Out(SetEls(S, e.i, << x[1] >> \o SelectSeq(Tail(x), LAMBDA y : y.k = 0)), 0)
      [] e.op = "first" -> LET x == Els(S, e.i) IN
                           IF x = << >> \/ x[1].t \notin StrTypes \/ \E j \in 1..Len(x) : x[j].t \in StrTypes /\ x[j].v = None THEN Skip(S)
                           ELSE Out(SetEls(S, e.i, [x EXCEPT ![1].v = << Cat([j \in 1..(Len(x) - 1) |-> Txt(x[j + 1].v)], << 32 >>) >>]), 0)
      [] ~Valid(S, e.i, e.k) -> Skip(S)
      [] e.op = "elname" -> Out(SetEls(S, e.i, [Els(S, e.i) EXCEPT ![e.k].n = e.name]), 0)
      [] e.op = "const" -> Out(SetEls(S, e.i, [Els(S, e.i) EXCEPT ![e.k].k = e.n]), 0)
      [] e.op = "flag" -> Out(SetEls(S, e.i, [Els(S, e.i) EXCEPT ![e.k].f = @ \cup ToSet(e.bits)]), 0)
      [] e.op = "unflag" -> Out(SetEls(S, e.i, [Els(S, e.i) EXCEPT ![e.k].f = @ \ ToSet(e.bits)]), 0)
      [] e.op = "set" -> IF Els(S, e.i)[e.k].t \notin StrTypes THEN Skip(S)
                         ELSE Out(SetEls(S, e.i, [Els(S, e.i) EXCEPT ![e.k].v = << e.s >>]), 0)
      [] e.op = "tget" -> LET x == Els(S, e.i)[e.k] IN      \* read by the accessors of its type
                          IF x.t \in {"err", "empty"} \/ (x.t = "url" /\ (x.v = None \/ ~Has(x.v[1], 64))) THEN Skip(S) ELSE OutT(S, 0, Txt(x.v))
      [] e.op = "tset" -> IF Els(S, e.i)[e.k].t # e.t THEN Skip(S)     \* set by them
                          ELSE Out(SetEls(S, e.i, [Els(S, e.i) EXCEPT ![e.k].v = << e.s >>]), 0)
      [] e.op = "clear" -> LET x == Els(S, e.i)[e.k] IN
                           IF x.t \notin IntTypes \cup {"string", "rest"} THEN Skip(S)
                           ELSE Out(SetEls(S, e.i, [Els(S, e.i) EXCEPT ![e.k] = El(x.t, None, Zero(x.t))]), 0)
      [] e.op = "cmp" -> IF S.v[e.j] = None \/ ~Valid(S, e.j, e.m) THEN Skip(S)
                         ELSE LET x == Els(S, e.i)[e.k]  y == Els(S, e.j)[e.m] IN
                              IF (x.t \in StrTypes \cup {"url"} /\ x.v = None) \/ (y.t \in StrTypes \cup {"url"} /\ y.v = None) THEN Skip(S)
                              ELSE Out(S, Compare(x, y))
\* what is seen: the result and everything readable, in all vectors
Seen1(x) == [t |-> x.t, n |-> x.n, k |-> x.k, f |-> SetToSortSeq(x.f, <), v |-> x.v]
SeenEls(xs) == [j \in 1..Len(xs) |-> Seen1(xs[j])]
VecObs(T) == [ret |-> T.ret, out |-> T.out,
              v |-> [i \in 1..NV |-> IF T.s.v[i] = None THEN << >> ELSE << [name |-> T.s.v[i][1].name, els |-> SeenEls(T.s.v[i][1].els)] >>],
              r |-> SeenEls(T.s.r)]
=============================================================================
