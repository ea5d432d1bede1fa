--------------------------------- MODULE MCVec ---------------------------------
(* All uses of up to Depth steps over a small set of steps on two vectors,     *)
(* each looked up and walked through at the end.  uid names each value ever    *)
(* added: order and identity are described a second way.                       *)
EXTENDS Vec, Json
CONSTANT Depth
VARIABLES S, hist, ids, n
A == << << 97 >> >>   B == << << 98 >> >>
Ops == {[op |-> "add", i |-> 1, t |-> "string", name |-> A, s |-> << 120 >>],
        [op |-> "add", i |-> 1, t |-> "uint8", name |-> B, s |-> << 53 >>],
        [op |-> "add", i |-> 2, t |-> "string", name |-> None, s |-> << >>],
        [op |-> "append", i |-> 1, j |-> 1, k |-> 1], [op |-> "append", i |-> 1, j |-> 2, k |-> 1], [op |-> "append", i |-> 2, j |-> 1, k |-> 2],
        [op |-> "del", i |-> 1, k |-> 1], [op |-> "del", i |-> 1, k |-> 2],
        [op |-> "deli", i |-> 1, k |-> 1], [op |-> "deli", i |-> 1, k |-> 2], [op |-> "deli", i |-> 1, k |-> 3], [op |-> "deli", i |-> 2, k |-> 1],
        [op |-> "dup", i |-> 1, j |-> 2], [op |-> "dup", i |-> 2, j |-> 1],
        [op |-> "const", i |-> 1, k |-> 2, n |-> 1], [op |-> "flag", i |-> 1, k |-> 1, bits |-> << 0, 2 >>], [op |-> "unflag", i |-> 1, k |-> 1, bits |-> << 1, 2 >>],
        [op |-> "elname", i |-> 1, k |-> 1, name |-> B], [op |-> "set", i |-> 1, k |-> 1, s |-> << 121, 122 >>],
        [op |-> "nokeys", i |-> 1], [op |-> "empty", i |-> 1], [op |-> "take", i |-> 1, k |-> 1], [op |-> "put", i |-> 1], [op |-> "fromvar", i |-> 2]}
Starts == {<< [op |-> "new", i |-> 1, n |-> 0], [op |-> "new", i |-> 2, n |-> 0] >>,
           << [op |-> "new", i |-> 1, n |-> 1], [op |-> "new", i |-> 2, n |-> 0],
              [op |-> "add", i |-> 1, t |-> "string", name |-> A, s |-> << 97 >>], [op |-> "add", i |-> 1, t |-> "string", name |-> B, s |-> << 98 >>],
              [op |-> "const", i |-> 1, k |-> 3, n |-> 1] >>}
Ends == << [op |-> "each", i |-> 1], [op |-> "each1", i |-> 1], [op |-> "each", i |-> 2], [op |-> "next", i |-> 1, k |-> 0], [op |-> "next", i |-> 2, k |-> 0],
           [op |-> "find", i |-> 1, name |-> A], [op |-> "find", i |-> 1, name |-> None],
           [op |-> "findkw", i |-> 1, name |-> B], [op |-> "findvar", i |-> 1, name |-> B], [op |-> "findstr", i |-> 1, name |-> A],
           [op |-> "print", i |-> 1], [op |-> "tobuf", i |-> 1], [op |-> "cmp", i |-> 1, k |-> 1, j |-> 2, m |-> 1] >>
RECURSIVE Play(_, _, _)
Play(s, h, ops) == IF ops = << >> THEN [s |-> s, h |-> h]
                   ELSE LET T == VStep(s, ops[1]) IN Play(T.s, Append(h, [e |-> ops[1], x |-> VecObs(T)]), Tail(ops))
Init == \E o \in Starts : LET P == Play(VecInit, << >>, o) IN
        S = P.s /\ hist = P.h /\ n = 0 /\ ids = [i \in 1..2 |-> FromTo(1, Len(P.s.v[i][1].els))]
Fresh == 100 + n
Do(e) == LET T == VStep(S, e)  g == ids[e.i] IN
         /\ T.ret # -9
         /\ S' = T.s /\ n' = n + 1
         /\ hist' = Append(hist, [e |-> e, x |-> VecObs(T)])
         /\ ids' = CASE e.op \in {"add", "append", "put"} -> [ids EXCEPT ![e.i] = Append(@, Fresh)]
                     [] e.op \in {"del", "deli"} /\ T.ret >= 0 -> [ids EXCEPT ![e.i] = SelectSeq(@, LAMBDA x : x # g[e.k])]
                     [] e.op = "dup" -> [ids EXCEPT ![e.j] = g]
                     [] e.op = "fromvar" -> [ids EXCEPT ![e.i] = << Fresh >>]
                     [] e.op = "empty" -> [ids EXCEPT ![e.i] = << >>]
                     [] e.op = "nokeys" -> [ids EXCEPT ![e.i] = SelectSeq(@, LAMBDA x : x = g[1] \/ \A j \in 1..Len(g) : g[j] = x => S.v[e.i][1].els[j].k = 0)]
                     [] OTHER -> ids
Next == n < Depth /\ \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_<< S, hist, ids, n >>
\* deletion takes the one element, the rest keep their order: the identities left are those of the elements left
Sound == /\ \A i \in 1..2 : Len(ids[i]) = Len(S.v[i][1].els)
         /\ \A i \in 1..2, a, b \in 1..6 : a < b /\ b <= Len(ids[i]) => ids[i][a] # ids[i][b]
Emit == n < Depth \/ PrintT("BEH" \o ToJson(Play(S, hist, Ends).h))
================================================================================
