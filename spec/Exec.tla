--------------------------------- MODULE Exec ---------------------------------
(* Use of an interface over time: settings, loading, lines executed, keys      *)
(* typed, working points, aliases.                                             *)
EXTENDS Editor

Cfg0 == [lexical |-> FALSE, ignorecase |-> FALSE, caseignore |-> FALSE, pref |-> 0, tabmode |-> 0,
         exkeys |-> FALSE, exfirst |-> FALSE, comment |-> 0, delim |-> SP, hlines |-> 0, htrunc |-> FALSE, width |-> 80,
         prompt |-> << 99, 108, 105, 62, 32 >>, scroll |-> TRUE, exitchars |-> << >>, utf8 |-> FALSE, histfn |-> FALSE,
         cbret |-> [i \in 0..9 |-> 0], cbexit |-> [i \in 0..9 |-> FALSE], cbtree |-> [i \in 0..9 |-> "-"]]
S0 == [heap |-> << >>, trees |-> << >>, active |-> "", cfg |-> Cfg0, ex |-> << >>, aliases |-> {}, ed |-> Ed0]

--------------------------------------------------------------------------------
(*                              Settings                                       *)
SetEx(S, r) == LET keep == SelectSeq(S.ex, LAMBDA x : x.fn # r.fn) IN [S EXCEPT !.ex = Append(keep, r)]
Set(S, k, v) ==
    CASE k = "lexicalorder" -> [S EXCEPT !.cfg.lexical = v = 1]
      [] k = "ignorecase" -> [S EXCEPT !.cfg.ignorecase = v = 1]
      [] k = "caseignore" -> [S EXCEPT !.cfg.caseignore = v = 1]
      [] k = "pref" -> [S EXCEPT !.cfg.pref = v]
      [] k = "tabmode" -> [S EXCEPT !.cfg.tabmode = v]
      [] k = "exkeys" -> [S EXCEPT !.cfg.exkeys = v = 1]
      [] k = "exfirst" -> [S EXCEPT !.cfg.exfirst = v = 1]
      [] k = "comment" -> [S EXCEPT !.cfg.comment = v]
      [] k = "delim" -> [S EXCEPT !.cfg.delim = v]
      [] k = "hlines" -> [S EXCEPT !.cfg.hlines = v]
      [] k = "htrunc" -> [S EXCEPT !.cfg.htrunc = v = 1]
      [] k = "width" -> [S EXCEPT !.cfg.width = v]
      [] k = "prompt" -> [S EXCEPT !.cfg.prompt = v]
      [] k = "scroll" -> [S EXCEPT !.cfg.scroll = v = 1]
      [] k = "utf8" -> [S EXCEPT !.cfg.utf8 = v = 1]
      [] k = "exitchar" -> [S EXCEPT !.cfg.exitchars = Append(@, v)]
      [] k = "histfn" -> [S EXCEPT !.cfg.histfn = TRUE]
      [] k = "hist" -> [S EXCEPT !.ed.h = Hist0(v)]
      [] OTHER -> S
Activate(S, name) == [S EXCEPT !.active = IF TreeIdx(S, name) # 0 THEN name ELSE ""]

--------------------------------------------------------------------------------
(*                     Executing the callbacks of a command                    *)
FnIdx(fn) == CASE fn = "cb0" -> 0 [] fn = "cb1" -> 1 [] fn = "cb2" -> 2 [] fn = "cb3" -> 3 [] fn = "cb4" -> 4
               [] fn = "cb5" -> 5 [] fn = "cb6" -> 6 [] fn = "cb7" -> 7 [] fn = "out1" -> 8 [] fn = "out0" -> 9
               [] fn = "al0" -> 0 [] fn = "al1" -> 1 [] fn = "al2" -> 2 [] OTHER -> -1
IsNamed(fn) == fn \in {"cb0", "cb1", "cb2", "cb3", "cb4", "cb5", "cb6", "cb7"}
Vals(bs) == [i \in 1..Len(bs) |-> [n |-> bs[i].name, t |-> bs[i].t, s |-> bs[i].s]]
(* what the output functions print *)
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Concat(Tail(ss))
LineOf(k, tag) == << 108, 105, 110, 101, 32 >> \o ToText(NatDigits(k)) \o << 32, 111, 102, 32 >> \o tag \o << NL >>
Printed(fn, args) ==
    IF fn = "out0" THEN Concat([i \in 1..Len(args) |-> args[i].s \o << NL >>])
    ELSE IF fn = "out1" THEN LET n == IF args = << >> THEN 0 ELSE LET m == Mag10(args[1].s) IN
                                      IF Len(m) = 1 THEN m[1] ELSE IF Len(m) = 2 THEN m[1] * 10 + m[2]
                                      ELSE m[1] * 100 + m[2] * 10 + m[3]
                             IN Concat([k \in 1..n |-> LineOf(k, IF Len(args) > 1 THEN args[2].s ELSE << >>)])
    ELSE << >>
(* what a pipe function makes of a text *)
RECURSIVE Lines(_)
Lines(s) == IF s = << >> THEN << >>
            ELSE LET i == Find(s, NL, 1) IN << SubSeq(s, 1, IF i > Len(s) THEN Len(s) ELSE i) >> \o Lines(From(s, i + 1))
Contains2(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
ArgNum(args) == IF args = << >> THEN 0 ELSE args[1].s[1] - 48
PipeText(c, vals, s) ==
    CASE c.fn = "pf0" -> Upper(s)
      [] c.fn = "pf1" -> Concat([i \in 1..Len(Lines(s)) |-> c.args[1].s \o Lines(s)[i]])
      [] c.fn = "pf2" -> << >>
      [] c.fn = "pf3" -> Concat(SubSeq(Lines(s), 1, IF ArgNum(c.args) < Len(Lines(s)) THEN ArgNum(c.args) ELSE Len(Lines(s))))
      [] c.fn = "pf4" -> ToText(NatDigits(Len(Lines(s)))) \o << NL >>
      [] c.fn = "pf5" -> Concat(SelectSeq(Lines(s), LAMBDA x : Contains2(x, vals[Len(vals)].s)))
      [] OTHER -> s
ParentOf(S, id) == LET ps == {p \in 1..Len(S.heap) : Contains(S.heap[p].kids, id)} IN
                   LET p == CHOOSE p \in ps : TRUE IN IF S.heap[p].k = "root" THEN 0 ELSE p
SetWp(S, tree, id) == LET i == TreeIdx(S, tree) IN IF i = 0 THEN S ELSE [S EXCEPT !.trees[i].wp = id]
WpOf(S, tree) == S.trees[TreeIdx(S, tree)].wp
(* tree names appear as texts among arguments and as names of trees *)
TreeNamed(S, txt) == LET m == {i \in 1..Len(S.trees) : S.trees[i].text = txt} IN
                     IF m = {} THEN "" ELSE S.trees[CHOOSE i \in m : TRUE].name
(* X = [S, calls, out, ret]: state, calls made, text printed, result           *)
RECURSIVE RunCbs(_, _, _, _), RunLine(_, _)
RunCbs(X, cbs, e, vals) ==
    IF cbs = << >> THEN X
    ELSE
    LET c == cbs[1] fn == c.fn S == X.S
        argtree == IF c.args = << >> THEN "" ELSE TreeNamed(S, c.args[1].s)
        named == [f |-> "cb", i |-> FnIdx(fn), fs |-> IF IsNamed(fn) THEN FnIdx(fn) ELSE -1, uh |-> 1,
                  cvv |-> vals, argv |-> c.args]
        wp(w) == [f |-> "wp", w |-> w, ret |-> 0]
        Y == IF c.pipe THEN X
             ELSE IF FnIdx(fn) >= 0
             THEN [X EXCEPT !.calls = Append(@, named),
                            !.out = @ \o Printed(fn, c.args),
                            !.exiting = @ \/ S.cfg.cbexit[FnIdx(fn)],
                            !.S = IF S.cfg.cbtree[FnIdx(fn)] = "-" THEN @ ELSE Activate(@, S.cfg.cbtree[FnIdx(fn)]),
                            !.ret = IF S.cfg.cbret[FnIdx(fn)] < 0 THEN -1 ELSE 0]
             ELSE IF fn = "wp_set" THEN [X EXCEPT !.calls = Append(@, wp("set")), !.S = SetWp(@, argtree, e.n)]
             ELSE IF fn = "wp_up" THEN [X EXCEPT !.calls = Append(@, wp("up")),
                                                 !.S = IF argtree = "" \/ WpOf(@, argtree) = 0 THEN @
                                                       ELSE SetWp(@, argtree, ParentOf(@, WpOf(@, argtree)))]
             ELSE IF fn = "wp_top" THEN [X EXCEPT !.calls = Append(@, wp("top")), !.S = SetWp(@, argtree, 0)]
             ELSE IF fn = "wp_show" THEN [X EXCEPT !.calls = Append(@, wp("show"))]
             ELSE IF fn = "alias" THEN RunLine([X EXCEPT !.ret = 0], c.args[1].s)
             ELSE X
    IN IF Y.ret < 0 THEN Y ELSE RunCbs(Y, Tail(cbs), e, vals)
RunEntry(X, e, binds) ==
    LET vals == Vals(CallVals(X.S, binds))
        pipes == SelectSeq(e.cbs, LAMBDA c : c.pipe)
        Y == RunCbs([X EXCEPT !.out = << >>], e.cbs, e, vals)
    IN [Y EXCEPT !.out = X.out \o (IF pipes = << >> THEN @ ELSE PipeText(pipes[Len(pipes)], vals, @)),
                 !.piped = @ \/ pipes # << >>]
\* an alias: the line in the active tree
RunLine(X, line) ==
    LET o == LineOutcome(X.S, line, X.S.active) IN
    IF o.cls # "ok" THEN X ELSE RunEntry(X, o.ents[1], o.binds)
(* a line executed in a tree: outcome and effects *)
Execute(S, line, tree) ==
    LET o == LineOutcome(S, line, tree)
        X == [S |-> S, calls |-> << >>, out |-> << >>, ret |-> 0, exiting |-> FALSE, piped |-> FALSE]
    IN [o |-> o, X |-> IF o.cls = "ok" THEN RunEntry(X, o.ents[1], o.binds) ELSE X]

--------------------------------------------------------------------------------
(*                                  Aliases                                    *)
(* r = [tree ("" the active one), name, help, cmd, fn]                         *)
AliasBlocked(S, r) ==
    LET t == S.trees[TreeIdx(S, IF r.tree = "" THEN S.active ELSE r.tree)] ks == S.heap[t.root].kids IN
    \E i \in 1..Len(ks) : S.heap[ks[i]].k = "cmd" /\ S.heap[ks[i]].name = r.name /\ ks[i] \notin S.aliases
AddAlias(S, r) ==
    IF AliasBlocked(S, r) THEN S
    ELSE LET t == S.trees[TreeIdx(S, IF r.tree = "" THEN S.active ELSE r.tree)]
             id == Len(S.heap) + 1
             ks == SelectSeq(S.heap[t.root].kids, LAMBDA x : ~(x \in S.aliases /\ S.heap[x].name = r.name))
             n == [Node0 EXCEPT !.k = "cmd", !.name = r.name, !.help = r.help, !.end = TRUE,
                                !.cbs = << [fn |-> r.fn, args |-> << [t |-> "string", s |-> r.cmd] >>, pipe |-> FALSE] >>]
             hp == Append([S.heap EXCEPT ![t.root].kids = Append(ks, id)], n)
         IN [S EXCEPT !.heap = [hp EXCEPT ![t.root].kids = SortKids(S, hp, @)], !.aliases = @ \cup {id}]

--------------------------------------------------------------------------------
(*                     The prompt: read, execute, again                        *)
(* One line read and executed: k the editor afterwards, o and X as Execute     *)
(* (cls "eof" when the input ended).                                           *)
ReadEval(S, keys, i) ==
    LET k == Typed(S, Fresh(S.ed), keys, i)
        T == [S EXCEPT !.ed = k]
        X == [S |-> T, calls |-> << >>, out |-> << >>, ret |-> 0, exiting |-> FALSE, piped |-> FALSE]
    IN IF k.st = "eof" THEN [k |-> k, o |-> [cls |-> "eof"], X |-> X]
       ELSE LET r == Execute(T, k.line, T.active) IN [k |-> k, o |-> r.o, X |-> r.X]
(* The loop: what happens, in order: each line to the history hook, the calls  *)
(* it makes, and the report when it is rejected or fails.                      *)
Report(r) ==
    CASE r.o.cls = "multi" -> << [f |-> "report", kind |-> "ambiguous", line |-> << >>] >>
      [] r.o.cls = "ok" -> IF r.X.ret < 0 THEN << [f |-> "report", kind |-> "callback", line |-> << >>] >> ELSE << >>
      [] OTHER -> << [f |-> "report", kind |-> "syntax", line |-> r.k.line] >>
RECURSIVE Loop(_, _, _, _)
Loop(S, keys, i, log) ==
    LET r == ReadEval(S, keys, i)
        used == i - 1 + r.k.used
        hook == IF S.cfg.histfn THEN << [f |-> "hist", line |-> r.k.line] >> ELSE << >>
        more == log \o hook \o r.X.calls \o Report(r)
    IN IF r.o.cls = "eof" THEN [S |-> r.X.S, log |-> log, used |-> used, eof |-> TRUE]
       ELSE IF r.X.exiting THEN [S |-> r.X.S, log |-> more, used |-> used, eof |-> FALSE]
       ELSE Loop(r.X.S, keys, used + 1, more)
================================================================================
