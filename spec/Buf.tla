--------------------------------- MODULE Buf ---------------------------------
(* String buffers (cligen_buf.c): the content of a buffer is the concatenation *)
(* of what was appended since it was created or reset, cut where truncated.    *)
(* A state is a sequence of buffers, each << >> (none) or << content >>.       *)
EXTENDS Integers, Sequences, TLC
NB == 3
BufInit == [i \in 1..NB |-> << >>]
RECURSIVE Digits(_, _)
Digits(n, b) == IF n < b THEN << n >> ELSE Append(Digits(n \div b, b), n % b)
Ascii(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Number(n) == LET ds == Digits(IF n < 0 THEN 0 - n ELSE n, 10) IN
             (IF n < 0 THEN << 45 >> ELSE << >>) \o [i \in 1..Len(ds) |-> Ascii(ds[i])]
Hex(n) == LET ds == Digits(n, 16) IN [i \in 1..Len(ds) |-> Ascii(ds[i])]
Pad(s, w) == [i \in 1..(IF w > Len(s) THEN w - Len(s) ELSE 0) |-> 32] \o s
Min(a, b) == IF a < b THEN a ELSE b
\* what a format with a text and a number becomes
Format(f, s, n) ==
    CASE f = "s" -> s
      [] f = "d" -> Number(n)
      [] f = "x" -> Hex(n)
      [] f = "s=d" -> s \o << 61 >> \o Number(n) \o << 59 >>
      [] f = "width" -> Pad(s, n)
      [] f = "prec" -> SubSeq(s, 1, Min(n, Len(s)))
      [] f = "pct" -> << 37 >> \o s \o << 37 >>
      [] f = "none" -> << >>
\* text of n characters, for long ones
Run(n, c) == [i \in 1..n |-> ((c + i) % 90) + 33]

Ok(S) == [s |-> S, ret |-> 0]
Fail(S) == [s |-> S, ret |-> -1]
Add(S, i, t) == Ok([S EXCEPT ![i] = << S[i][1] \o t >>])
BufStep(S, e) ==
    CASE e.op = "new" -> Ok([S EXCEPT ![e.i] = << << >> >>])
      [] e.op = "newdef" -> Ok([S EXCEPT ![e.i] = << << >> >>])
      [] e.op = "alloc" -> Ok(S)              \* how buffers grow: of no consequence for their content
      [] e.op = "free" -> Ok([S EXCEPT ![e.i] = << >>])
      [] e.op = "str" -> Add(S, e.i, e.s)
      [] e.op = "run" -> Add(S, e.i, Run(e.n, e.c))
      [] e.op = "chr" -> Add(S, e.i, IF e.n = 0 THEN << >> ELSE << e.n >>)
      [] e.op = "null" -> Fail(S)             \* a null pointer appended
      [] e.op = "raw" -> Add(S, e.i, e.s)
      [] e.op = "buf" -> Add(S, e.i, S[e.j][1])
      [] e.op = "fmt" -> Add(S, e.i, Format(e.f, e.s, e.n))
      [] e.op = "vfmt" -> Add(S, e.i, Format(e.f, e.s, e.n))
      [] e.op = "nofmt" -> Ok(S)              \* printing to no buffer
      [] e.op = "trunc" -> IF e.n > Len(S[e.i][1]) THEN Fail(S) ELSE Ok([S EXCEPT ![e.i] = << SubSeq(@[1], 1, e.n) >>])
      [] e.op = "reset" -> Ok([S EXCEPT ![e.i] = << << >> >>])
\* what is read back after a step: every buffer's content (through its length), ended by a zero, within its allocation
BufObs(T) == [ret |-> T.ret, bufs |-> T.s, zero |-> 1, room |-> 1]
=============================================================================
