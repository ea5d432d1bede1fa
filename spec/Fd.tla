----------------------------------- MODULE Fd -----------------------------------
(* Descriptors registered with the line reader (cligen_getline.c): who is       *)
(* called while the reader waits for a key. The order within a round is free;   *)
(* whom it serves, with which handler and argument, is not.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fds == 1..3
None == << >>
FdInit == [reg |-> [f \in Fds |-> None],      \* registered: << [h, a] >>
           avail |-> [f \in Fds |-> 0],       \* bytes to be read
           keys |-> << >>,                    \* keys typed and not read
           line |-> << >>,                    \* of the line being entered
           mode |-> "out",                    \* out, wait, round, handler, block
           pend |-> {},                       \* of the round: ready and not yet called
           key |-> FALSE,                     \* of the round: a key was there
           dirty |-> FALSE,                   \* of the round: someone was unregistered in it
           cur |-> 0]                         \* the descriptor whose handler runs
Ready(S) == {f \in Fds : S.reg[f] # None /\ S.avail[f] > 0}
\* steps of the reader which cannot be seen
Look(S) == IF S.mode = "wait" /\ (Ready(S) # {} \/ S.keys # << >>)
           THEN {[S EXCEPT !.mode = "round", !.pend = Ready(S), !.key = S.keys # << >>, !.dirty = FALSE]} ELSE {}
\* one who became ready in a round which unregistered another may have to wait for the next round
Over(S) == S.mode = "round" /\ (S.pend = {} \/ S.dirty)
TakeKey(S) == [S EXCEPT !.keys = Tail(@), !.line = Append(@, S.keys[1]),
                        !.mode = IF S.keys[1] = 10 THEN "end" ELSE "wait"]
\* a blank line is not delivered
Blank(T) == IF T.mode = "end" /\ T.line = << 10 >> THEN [T EXCEPT !.mode = "wait", !.line = << >>] ELSE T
EndRound(S) == IF Over(S) THEN {IF S.key THEN Blank(TakeKey(S)) ELSE [S EXCEPT !.mode = "wait"]} ELSE {}
\* after a failing handler: the next key is waited for, alone
Blocked(S) == IF S.mode = "block" /\ S.keys # << >> THEN {Blank(TakeKey(S))} ELSE {}
Silent(S) == Look(S) \cup EndRound(S) \cup Blocked(S)

Idle(S) == \/ S.mode = "wait" /\ Ready(S) = {} /\ S.keys = << >>
           \/ S.mode = "block" /\ S.keys = << >>
One(b, S) == IF b THEN {S} ELSE {}
\* steps which are seen
FdStep(S, e) ==
    CASE e.op = "reg" -> One(e.r = (IF e.f \in Fds THEN 0 ELSE -1), IF e.f \in Fds THEN [S EXCEPT !.reg[e.f] = << [h |-> e.h, a |-> e.a] >>] ELSE S)
      [] e.op = "unreg" -> LET there == e.f \in Fds /\ S.reg[IF e.f \in Fds THEN e.f ELSE 1] # None IN
                           One(e.r = (IF there THEN 0 ELSE -1),
                               IF there THEN [S EXCEPT !.reg[e.f] = None, !.pend = @ \ {e.f}, !.dirty = TRUE] ELSE S)
      [] e.op = "put" -> {[S EXCEPT !.avail[e.f] = @ + 1]}
      [] e.op = "take" -> One(S.avail[e.f] > 0, [S EXCEPT !.avail[e.f] = IF @ > 0 THEN @ - 1 ELSE 0])
      [] e.op = "key" -> {[S EXCEPT !.keys = Append(@, e.c)]}
      [] e.op = "read" -> One(S.mode = "out", [S EXCEPT !.mode = "wait", !.line = << >>])
      [] e.op = "call" -> One(/\ S.mode = "round" /\ e.f \in S.pend /\ S.reg[e.f] = << [h |-> e.h, a |-> e.a] >>
                              /\ e.left = Len(S.keys),
                              [S EXCEPT !.mode = "handler", !.pend = @ \ {e.f}, !.cur = e.f])
      [] e.op = "return" -> One(S.mode = "handler", [S EXCEPT !.mode = IF e.r < 0 THEN "block" ELSE "round"])
      \* nothing to do: the interrupt hook runs; failing, it gives up the line
      [] e.op = "hook" -> One(Idle(S) /\ e.left = Len(S.keys), S)
      [] e.op = "hookret" -> One(TRUE, IF e.r < 0 THEN [S EXCEPT !.mode = "wait", !.line = << >>] ELSE S)
      [] e.op = "line" -> One(S.mode = "end" /\ e.s = SubSeq(S.line, 1, Len(S.line) - 1) /\ e.left = Len(S.keys), [S EXCEPT !.mode = "out"])
      [] OTHER -> {}
=================================================================================
