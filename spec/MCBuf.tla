--------------------------------- MODULE MCBuf ---------------------------------
(* All uses of up to Depth steps over a small set of steps. Content is also    *)
(* described a second way, as the log of what was appended, and compared.      *)
EXTENDS Buf, Json
CONSTANTS Depth, Sizes, Lens
VARIABLES S, hist, log
TheSizes == {<<0, 0, FALSE>>, <<1, 0, FALSE>>, <<4, 0, TRUE>>, <<3, 2, FALSE>>, <<8, 8, TRUE>>, <<0, 5, TRUE>>}
Ops == {[op |-> "run", i |-> 1, n |-> n, c |-> 7] : n \in Lens}
       \cup {[op |-> "raw", i |-> 1, s |-> Run(n, 40)] : n \in Lens}
       \cup {[op |-> "fmt", i |-> 1, f |-> "width", s |-> << 90 >>, n |-> n] : n \in Lens}
       \cup {[op |-> "chr", i |-> 1, n |-> 65], [op |-> "reset", i |-> 1], [op |-> "null", i |-> 1, f |-> "str"],
             [op |-> "buf", i |-> 1, j |-> 2], [op |-> "trunc", i |-> 1, n |-> 1], [op |-> "trunc", i |-> 1, n |-> 5]}
Starts == {<< [op |-> "alloc", n |-> sz[1], m |-> sz[2]],
              IF sz[3] THEN [op |-> "newdef", i |-> 1] ELSE [op |-> "new", i |-> 1, n |-> sz[1]],
              [op |-> "new", i |-> 2, n |-> 1], [op |-> "str", i |-> 2, s |-> << 97, 98, 99 >>] >> : sz \in Sizes}
RECURSIVE Play(_, _, _)
Play(s, h, ops) == IF ops = << >> THEN [s |-> s, h |-> h]
                   ELSE LET T == BufStep(s, ops[1]) IN Play(T.s, Append(h, [e |-> ops[1], x |-> BufObs(T)]), Tail(ops))
Init == \E o \in Starts : LET P == Play(BufInit, << >>, o) IN S = P.s /\ hist = P.h /\ log = << >>
Piece(e) == CASE e.op = "run" -> Run(e.n, e.c) [] e.op = "raw" -> e.s [] e.op = "chr" -> << e.n >>
              [] e.op = "fmt" -> Format(e.f, e.s, e.n) [] e.op = "buf" -> << 97, 98, 99 >> [] OTHER -> << >>
Do(e) == LET T == BufStep(S, e) IN
         /\ S' = T.s
         /\ hist' = Append(hist, [e |-> e, x |-> BufObs(T)])
         /\ log' = CASE e.op = "reset" -> << >>
                     [] e.op = "trunc" -> IF T.ret = 0 THEN Append(log, [cut |-> e.n]) ELSE log
                     [] OTHER -> Append(log, [cut |-> -1, t |-> Piece(e)])
Next == Len(hist) < Depth + 4 /\ \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_<< S, hist, log >>
\* position k of the content is that of the last piece written over it
RECURSIVE Lens0(_)
Lens0(g) == IF g = << >> THEN 0 ELSE LET m == Lens0(SubSeq(g, 1, Len(g) - 1))  e == g[Len(g)] IN
            IF e.cut >= 0 THEN e.cut ELSE m + Len(e.t)
RECURSIVE At(_, _)
At(g, k) == LET e == g[Len(g)]  f == SubSeq(g, 1, Len(g) - 1) IN
            IF e.cut >= 0 THEN At(f, k) ELSE IF k > Lens0(f) THEN e.t[k - Lens0(f)] ELSE At(f, k)
IsConcatenation == /\ Len(S[1][1]) = Lens0(log)
                   /\ \A k \in 1..Len(S[1][1]) : S[1][1][k] = At(log, k)
OtherUntouched == S[2] = << << 97, 98, 99 >> >>
Emit == Len(hist) < Depth + 4 \/ PrintT("BEH" \o ToJson(hist))
================================================================================
