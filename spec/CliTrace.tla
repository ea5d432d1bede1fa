------------------------------- MODULE CliTrace -------------------------------
(* Replays a recorded use of the real interface on the specification: every    *)
(* event carries what was asked (the specification's structure, the line, the  *)
(* keys) and what the implementation did.                                      *)
EXTENDS Exec, Json
CONSTANTS TraceFile, Fields
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, S, live, hs    \* hs: the interface in use and the states of the others
vars == << l, S, live, hs >>
Want(f) == f \in Fields
\* a compared aspect: reported when it differs
Same(f, obs, exp) == IF Want(f) /\ obs # exp
                     THEN PrintT(<< "MISMATCH", l, f, "observed", obs, "specified", exp >>) /\ FALSE
                     ELSE TRUE
JoinRows(rows) == Squeeze(Join(rows, << SP >>))
Steady(e) == IF live = -1 THEN TRUE ELSE Same("live", e.live, live)
ObsX(xs) == [i \in 1..Len(xs) |-> [fn |-> xs[i].fn, cvv |-> xs[i].cvv, argv |-> xs[i].argv]]
ExpX(xs) == [i \in 1..Len(xs) |-> [fn |-> xs[i].fn, cvv |-> Vals(xs[i].cvv), argv |-> xs[i].args]]
(* What the terminal shows when each key is awaited. top: the row the prompt   *)
(* is in; a new prompt may be anywhere, otherwise it stays where it is.        *)
Seen(T, top, E) == IF S.cfg.scroll THEN T.r = top /\ SeenScrolled(T, PromptOf(S, E), E) ELSE SeenWrapped(T, PromptOf(S, E), E, top)
OnScreen(T, top, E, i) ==
    IF Seen(T, top, E) THEN TRUE
    ELSE PrintT(<< "MISMATCH", l, "screen", "observed", "cursor", T.r - top, T.c, "from the prompt's row on", From(T.rows, top + 1),
                   "specified", "after key", i, PromptOf(S, E), E.l, E.r >>) /\ FALSE
RECURSIVE Screens(_, _, _, _, _)
Screens(e, T, top, E, i) ==
    IF i > Len(e.keys) THEN TRUE
    ELSE LET F == Key(S, E, e.keys[i])
             U == EmitAll(T, e.out, e.marks[i] + 1, e.marks[i + 1])
             anew == e.keys[i] \in {9, 10, 12, 13, 63}
             row == U.r - (IF S.cfg.scroll THEN 0 ELSE (Len(PromptOf(S, F)) + Len(F.l)) \div T.w)
             t == IF e.keys[i] = 12 \/ (anew /\ row > top) THEN row ELSE top
         IN IF F.st # "edit" THEN TRUE ELSE OnScreen(U, t, F, i) /\ Screens(e, U, t, F, i + 1)
Screen(e) == LET T == EmitAll(T0(S.cfg.width), e.out, 1, e.marks[1]) IN OnScreen(T, 0, Fresh(S.ed), 0) /\ Screens(e, T, 0, Fresh(S.ed), 1)
RECURSIVE FillEx(_, _)
FillEx(St, rs) == IF rs = << >> THEN St ELSE FillEx(SetEx(St, rs[1]), Tail(rs))
Hs0 == [cur |-> 0, others |-> [i \in 0..3 |-> S0]]
Event(e) ==
    CASE e.op = "new" -> S' = S0 /\ live' = -1 /\ hs' = Hs0
      [] e.op = "handle" ->
            LET saved == [hs.others EXCEPT ![hs.cur] = S]
                T == saved[e.i]
            \* the terminal's settings, overwriting and what was listed last are the process's
            IN /\ S' = [T EXCEPT !.cfg.width = S.cfg.width, !.cfg.scroll = S.cfg.scroll, !.cfg.utf8 = S.cfg.utf8,
                                 !.cfg.exitchars = S.cfg.exitchars, !.ed.over = S.ed.over]
               /\ hs' = [cur |-> e.i, others |-> saved]
               /\ live' = e.live
      [] e.op = "set" -> /\ S' = (CASE e.k = "ex" -> SetEx(S, e.ex)
                                    [] e.k = "cbret" -> [S EXCEPT !.cfg.cbret[e.i] = e.v]
                                    [] e.k = "cbexit" -> [S EXCEPT !.cfg.cbexit[e.i] = e.v = 1]
                                    [] e.k = "cbtree" -> [S EXCEPT !.cfg.cbtree[e.i] = e.tree]
                                    [] OTHER -> Set(S, e.k, e.v))
                         /\ live' = live
      [] e.op = "spec" -> /\ Same("load", e.ret, 0)
                          /\ S' = AddTrees(S, e.secs) /\ live' = e.live
      [] e.op = "trees" -> /\ Same("trees", e.names, [i \in 1..Len(S.trees) |-> S.trees[i].text])
                           /\ Same("trees", e.active, IF S.active = "" THEN << >> ELSE ActiveTree(S).text)
                           /\ Steady(e)
                           /\ UNCHANGED << S, live >>
      [] e.op = "active" -> /\ S' = Activate(S, e.tree) /\ live' = live
      [] e.op \in {"eval", "evalin"} ->
            LET r == Execute(S, e.line, IF e.op = "eval" THEN S.active ELSE e.tree)
                ok == r.o.cls = "ok"
            IN /\ Same("class", e.cls, r.o.cls)
               /\ Same("class1", e.cls = "ok", ok)
               /\ IF ~ok \/ e.nocvv THEN TRUE ELSE Same("cvv", e.cvv, Vals(r.o.binds))
               /\ Same("calls", e.calls, r.X.calls)
               /\ Same("fns", [i \in 1..Len(e.calls) |-> e.calls[i].f], [i \in 1..Len(r.X.calls) |-> r.X.calls[i].f])
               /\ IF ~ok THEN TRUE ELSE Same("ret", e.eret, r.X.ret)
               /\ IF r.X.piped /\ r.X.ret # 0 THEN TRUE ELSE Same("out", e.out, r.X.out)
               /\ Same("xcalls", ObsX(e.xcalls), ExpX(r.o.xc))
               /\ Steady(e)
               /\ S' = r.X.S /\ live' = live
      [] e.op = "type" ->
            LET r == ReadEval(S, e.keys, 1)
                k == r.k
                ok == r.o.cls = "ok"
            IN /\ Same("line", e.line, k.line)
               /\ Same("used", e.used, k.used)
               /\ Same("shows", [i \in 1..Len(e.shows) |-> e.shows[i].k], [i \in 1..Len(k.shows) |-> k.shows[i].k])
               /\ \A i \in 1..Len(k.shows) :
                    IF k.shows[i].k = "?" THEN Same("help", e.shows[i].rows, k.shows[i].rows)
                    ELSE Same("tab", JoinRows(e.shows[i].rows), JoinRows(k.shows[i].rows))
               /\ IF Want("screen") THEN Screen(e) ELSE TRUE
               /\ Same("class", e.cls, r.o.cls)
               /\ Same("class1", e.cls = "ok", ok)
               /\ Same("calls", e.calls, r.X.calls)
               /\ Same("hook", e.hook, IF S.cfg.histfn /\ k.st = "line" THEN << k.line >> ELSE << >>)
               /\ IF ~ok THEN TRUE ELSE Same("ret", e.eret, r.X.ret)
               /\ Steady(e)
               /\ S' = r.X.S /\ live' = live
      [] e.op = "loop" ->
            LET r == Loop(S, e.keys, 1, << >>) IN
               /\ Same("loop", e.log, r.log)
               /\ Same("used", e.used, r.used)
               /\ Same("loop", e.ret, 0)
               /\ Steady(e)
               /\ S' = r.S /\ live' = live
      [] e.op = "histsave" -> /\ Same("hist", e.text, HistText(S.ed.h.lines))
                              /\ UNCHANGED << S, live >>
      [] e.op = "histload" -> /\ Same("hist", e.ret, 0)
                              /\ S' = [S EXCEPT !.ed.h = HistAddAll(@, FileLines(e.text))] /\ live' = live
      [] e.op = "alias" ->
            /\ Same("alias", << e.ret, e.eexist >>, IF AliasBlocked(S, e.alias) THEN << -1, 1 >> ELSE << 0, 0 >>)
            /\ S' = AddAlias(S, e.alias) /\ live' = e.live
Init == l = 1 /\ S = S0 /\ live = -1 /\ hs = Hs0
Next == /\ l <= Len(Trace) /\ Event(Trace[l]) /\ l' = l + 1
        /\ IF Trace[l].op \in {"new", "handle"} THEN TRUE ELSE hs' = hs
Spec == Init /\ [][Next]_vars
\* the whole trace is a behaviour of the specification
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<< "REJECTED", TLCGet("stats").diameter >>) /\ FALSE
================================================================================
