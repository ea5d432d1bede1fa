--------------------------------- MODULE Page ---------------------------------
(* Paged output (cligen_io.c, cligen_handle.c): what arrives at the terminal   *)
(* when text is output, character by character, and the keys taken for it.     *)
(* rows: terminal rows begun since the last stop (-1: the user has quit);      *)
(* col: characters on the current row.                                         *)
EXTENDS Integers, Sequences, TLC
NLc == 10
PageInit == [rows |-> 0, col |-> 0, H |-> 0, W |-> 80, wsrows |-> 0, paging |-> TRUE, keys |-> << >>]
More == << 45, 45, 77, 111, 114, 101, 45, 45 >>
Bs(c) == [i \in 1..8 |-> c]
Clear == Bs(8) \o Bs(32) \o Bs(8)          \* back over the prompt, blanks over it, back again
HelpText == Bs(8) \o << 80,114,101,115,115,32,67,82,32,102,111,114,32,111,110,101,32,109,111,114,101,32,108,105,110,101,44,32,
             83,80,65,67,69,32,102,111,114,32,110,101,120,116,32,112,97,103,101,44,32,113,32,116,111,32,113,117,105,116,10 >>
\* lines narrower than the line editor can handle count as of its smallest width
Width(c) == IF c = 0 THEN 80 ELSE IF c < 21 THEN 21 ELSE c

\* the prompt at a full page: one key decides what follows
Stop(P) ==
    LET k == IF P.keys = << >> THEN -1 ELSE P.keys[1] IN
    [P EXCEPT !.keys = IF @ = << >> THEN @ ELSE Tail(@),
              !.rows = CASE k = 10 -> @ - 1            \* one row more
                         [] k \in {113, 3} -> -1       \* q, ^C: no more
                         [] k = 63 -> @                \* an explanation, and one row more
                         [] OTHER -> 0,                \* a page more
              !.out = @ \o More \o (IF k = 63 THEN HelpText ELSE << >>) \o Clear]
Full(P) == P.rows >= P.H - 1
StopIfFull(P) == IF Full(P) THEN Stop(P) ELSE P
\* the cursor beyond the last column: the next character is on another row
Wrapped(P) == IF P.col >= P.W THEN StopIfFull([P EXCEPT !.rows = @ + 1, !.col = 0]) ELSE P
RECURSIVE Put(_, _, _)
Put(P, s, i) ==
    IF i > Len(s) \/ P.rows < 0 THEN P
    ELSE IF s[i] = NLc
    THEN Put(StopIfFull([P EXCEPT !.rows = @ + 1, !.col = 0, !.out = Append(@, NLc)]), s, i + 1)
    ELSE LET Q == Wrapped(P) IN
         IF Q.rows < 0 THEN Q
         ELSE Put([Q EXCEPT !.col = @ + 1, !.out = Append(@, s[i])], s, i + 1)
Paged(P, s) ==
    IF s = << >> \/ P.rows < 0 THEN P
    ELSE LET Q == Put(P, s, 1) IN
         IF Q.rows >= 0 /\ s[Len(s)] # NLc THEN StopIfFull(Q) ELSE Q

Plain(P, s) == [P EXCEPT !.out = @ \o s]
Output(P, s) == IF P.paging /\ P.H > 0 THEN Paged(P, s) ELSE Plain(P, s)

RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Concat(Tail(ss))
\* [P.out: what arrived at the terminal, f: what was output to another file]
PageStep(P0, e) ==
    LET P == [rows |-> P0.rows, col |-> P0.col, H |-> P0.H, W |-> P0.W, wsrows |-> P0.wsrows, paging |-> P0.paging,
              keys |-> P0.keys, out |-> << >>, f |-> << >>, ret |-> 0] IN
    CASE e.op = "resize" -> [P EXCEPT !.H = e.h, !.wsrows = e.h, !.W = Width(e.w)]
      [] e.op = "paging" -> [P EXCEPT !.paging = e.n = 1]
      \* rows given by the program count only where the terminal does not know its own
      [] e.op = "rows" -> IF e.n = 0 THEN [P EXCEPT !.H = 0] ELSE IF P.wsrows # 0 THEN P ELSE [P EXCEPT !.H = e.n]
      [] e.op = "width" -> [P EXCEPT !.W = Width(e.n)]
      [] e.op = "out" -> Output(P, e.s)
      [] e.op = "fmt" -> Output(P, e.s \o << 61 >> \o e.t \o << 10 >>)
      [] e.op = "basic" -> Output(P, e.s)
      [] e.op = "other" -> [P EXCEPT !.f = e.s]
      [] e.op = "reset" -> [P EXCEPT !.rows = 0, !.col = 0]
      [] e.op = "status" -> [P EXCEPT !.ret = IF P.rows < 0 THEN 1 ELSE 0]
      [] e.op = "keys" -> [P EXCEPT !.keys = @ \o e.s]
      [] e.op = "drain" -> [P EXCEPT !.keys = << >>]
State(P) == [rows |-> P.rows, col |-> P.col, H |-> P.H, W |-> P.W, wsrows |-> P.wsrows, paging |-> P.paging, keys |-> P.keys]
\* tty: the terminal's settings are as they were before
PageObs(P) == [ret |-> P.ret, out |-> P.out, f |-> P.f, left |-> Len(P.keys), tty |-> 1]
================================================================================
