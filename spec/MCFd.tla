---------------------------------- MODULE MCFd ----------------------------------
(* The reader waiting, with two registered descriptors and every choice, from    *)
(* small sets, of what arrives while it is idle and of what handlers do.          *)
(* Everybody who is ready is served, and the wait ends.                           *)
EXTENDS Fd, Json
CONSTANTS IdleLen, CallLen, NStarts
VARIABLES S, plan, ic, cc, todo, inh, served, stage
vars == << S, plan, ic, cc, todo, inh, served, stage >>
put(f) == [op |-> "put", f |-> f]
key(c) == [op |-> "key", c |-> c]
take(f) == [op |-> "take", f |-> f]
reg(f, h, a) == [op |-> "reg", f |-> f, h |-> h, a |-> a]
unreg(f) == [op |-> "unreg", f |-> f]
fail == [op |-> "fail"]
Idles == {<< put(1) >>, << put(2), put(1) >>, << key(97) >>, << put(1), key(98), key(10) >>, << put(2), put(2), put(1), key(99) >>, << fail >>,
          << unreg(1), put(1), put(2) >>}
own == [op |-> "own"]
Calls == {<< own >>, << >>, << own, unreg(2) >>, << unreg(1), unreg(2) >>, << own, reg(2, 3, 5) >>, << own, put(2) >>,
          << own, key(100), key(10) >>, << own, fail >>, << reg(1, 2, 7), unreg(3) >>, << own, reg(3, 1, 8), put(3) >>}
Starts == IF NStarts = 1 THEN {<< reg(2, 1, 1), reg(1, 1, 2), reg(2, 2, 3) >>}
          ELSE {<< reg(1, 1, 1), reg(2, 2, 2) >>, << reg(2, 1, 1), reg(1, 1, 2), reg(2, 2, 3) >>}
Plans == [start : Starts, idle : [1..IdleLen -> Idles], call : [1..CallLen -> Calls]]
Init == /\ plan \in Plans /\ S = FdInit /\ ic = 0 /\ cc = 0 /\ todo = plan.start /\ inh = FALSE /\ served = 0 /\ stage = "start"
        /\ PrintT("BEH" \o ToJson(plan))
There(f) == f \in Fds /\ S.reg[f] # None
\* an action with its outcome
Event(a) == CASE a.op = "reg" -> [op |-> "reg", f |-> a.f, h |-> a.h, a |-> a.a, r |-> 0]
              [] a.op = "unreg" -> [op |-> "unreg", f |-> a.f, r |-> IF There(a.f) THEN 0 ELSE -1]
              [] a.op = "own" -> take(S.cur)
              [] OTHER -> a
Act == /\ todo # << >> /\ todo[1].op # "fail"
       /\ LET e == Event(todo[1]) IN
          S' \in (IF e.op = "take" /\ S.avail[e.f] = 0 THEN {S} ELSE FdStep(S, e))
       /\ todo' = Tail(todo) /\ UNCHANGED << plan, ic, cc, inh, served, stage >>
Result == IF todo # << >> /\ todo[1].op = "fail" THEN -1 ELSE 0
Ended == IF todo = << >> THEN TRUE ELSE todo[1].op = "fail"
Read == stage = "start" /\ Ended /\ stage' = "read" /\ S' \in FdStep(S, [op |-> "read"]) /\ todo' = << >> /\ UNCHANGED << plan, ic, cc, inh, served >>
Call == /\ S.mode = "round" /\ stage = "read"
        /\ \E f \in S.pend :
           /\ S' \in FdStep(S, [op |-> "call", f |-> f, h |-> S.reg[f][1].h, a |-> S.reg[f][1].a, left |-> Len(S.keys)])
           /\ todo' = (IF cc < CallLen THEN plan.call[cc + 1] ELSE << own >>)
           /\ cc' = cc + 1 /\ served' = f /\ UNCHANGED << plan, ic, inh, stage >>
Return == S.mode = "handler" /\ Ended /\ S' \in FdStep(S, [op |-> "return", r |-> Result]) /\ todo' = << >> /\ served' = 0
          /\ UNCHANGED << plan, ic, cc, inh, stage >>
Hook == /\ ~inh /\ stage = "read" /\ Idle(S)
        /\ inh' = TRUE /\ ic' = ic + 1 /\ todo' = (IF ic < IdleLen THEN plan.idle[ic + 1] ELSE << key(122), key(10) >>)
        /\ UNCHANGED << S, plan, cc, served, stage >>
HookRet == inh /\ Ended /\ inh' = FALSE /\ S' \in FdStep(S, [op |-> "hookret", r |-> Result]) /\ todo' = << >> /\ UNCHANGED << plan, ic, cc, served, stage >>
Silently == ~inh /\ stage = "read" /\ todo = << >> /\ S' \in Silent(S) /\ UNCHANGED << plan, ic, cc, todo, inh, served, stage >>
Line == S.mode = "end" /\ S' = [S EXCEPT !.mode = "out"] /\ stage' = "done" /\ UNCHANGED << plan, ic, cc, todo, inh, served >>
Next == Act \/ Read \/ Call \/ Return \/ Hook \/ HookRet \/ Silently \/ Line
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* nobody who is ready is forgotten
Served == \A f \in Fds : (f \in Ready(S) /\ S.mode = "wait") ~> (served = f \/ f \notin Ready(S) \/ stage = "done" \/ S.mode = "block")
Ends == <>(stage = "done")
\* only the registered are called, with what was registered last
OnlyRegistered == /\ S.mode = "round" => \A f \in S.pend : S.reg[f] # None
                  /\ S.mode = "handler" => S.cur = served
=================================================================================
