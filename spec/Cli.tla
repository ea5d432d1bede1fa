--------------------------------- MODULE Cli ---------------------------------
(* A command line interface: the trees a specification denotes, how lines are  *)
(* matched against them, what is bound and called, completed and listed.       *)
(*                                                                             *)
(* S, the state of an interface, is a record                                   *)
(*   heap   sequence of nodes (a node's position is its identity)              *)
(*   trees  sequence of [name, root, wp, pipe, dflt]: wp the working point (a  *)
(*          node, 0 none), pipe: a tree of pipe commands, dflt: the tree's     *)
(*          default pipe ("" none)                                             *)
(*   active name of the active tree ("" none)                                  *)
(*   cfg    settings                                                           *)
(*   ex     what each expansion function returns                               *)
(* A node is [k, name, var, kids, end, cbs, hide, labels, sets, help, tree,    *)
(* rm, pipe]: k is "cmd", "var", "ref" or "root"; end tells that a command     *)
(* ends there; kids are nodes.                                                 *)
EXTENDS Values, TLC

NoVar == [name |-> << >>, t |-> "", show |-> << >>, ranges |-> << >>, choice |-> << >>, regex |-> << >>,
          fd |-> 0, fn |-> "", fname |-> << >>, fargs |-> << >>, pref |-> 0, ctext |-> << >>, rtext |-> << >>, tr |-> ""]
Node0 == [k |-> "root", name |-> << >>, var |-> NoVar, kids |-> << >>, end |-> FALSE, cbs |-> << >>,
          hide |-> FALSE, labels |-> << >>, sets |-> FALSE, help |-> << >>, tree |-> "", rm |-> << >>, pipe |-> FALSE]

--------------------------------------------------------------------------------
(*                         Order of alternatives                               *)
TypeRank(t) == CASE t = "int8" -> 1 [] t = "int16" -> 2 [] t = "int32" -> 3 [] t = "int64" -> 4
   [] t = "uint8" -> 5 [] t = "uint16" -> 6 [] t = "uint32" -> 7 [] t = "uint64" -> 8 [] t = "decimal64" -> 9
   [] t = "bool" -> 10 [] t = "rest" -> 11 [] t = "string" -> 12 [] t = "interface" -> 13 [] t = "ipv4addr" -> 14
   [] t = "ipv4prefix" -> 15 [] t = "ipv6addr" -> 16 [] t = "ipv6prefix" -> 17 [] t = "macaddr" -> 18
   [] t = "url" -> 19 [] t = "uuid" -> 20 [] t = "time" -> 21 [] OTHER -> 22
\* digit runs compare as numbers when the order is by version
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN RunEnd(s, i + 1) ELSE i
RECURSIVE VersCmp(_, _, _, _)
VersCmp(a, i, b, j) ==
    IF i > Len(a) /\ j > Len(b) THEN 0 ELSE IF i > Len(a) THEN -1 ELSE IF j > Len(b) THEN 1
    ELSE IF Digit(a[i]) /\ Digit(b[j])
         THEN LET x == SubSeq(a, i, RunEnd(a, i) - 1)  y == SubSeq(b, j, RunEnd(b, j) - 1)
              IN IF x = y THEN VersCmp(a, RunEnd(a, i), b, RunEnd(b, j))
                 ELSE IF MagLE(Mag10(x), Mag10(y)) THEN -1 ELSE 1
    ELSE IF a[i] = b[j] THEN VersCmp(a, i + 1, b, j + 1)
    ELSE IF a[i] < b[j] THEN -1 ELSE 1
WordCmp(S, a, b) == IF a = b THEN 0
                    ELSE IF S.cfg.lexical THEN VersCmp(a, 1, b, 1)
                    ELSE IF S.cfg.ignorecase THEN Cmp(Lower(a), Lower(b)) ELSE Cmp(a, b)
\* lists compared element by element, a shorter one first
SeqCmp(a, b, P(_, _)) ==
    LET RECURSIVE C(_)
        C(i) == IF i > Len(a) /\ i > Len(b) THEN 0 ELSE IF i > Len(a) THEN -1 ELSE IF i > Len(b) THEN 1
                ELSE LET c == P(a[i], b[i]) IN IF c # 0 THEN c ELSE C(i + 1)
    IN C(1)
NumOf(v, x) == IF v.t = "decimal64" THEN DecWord(x, v.fd) ELSE ParseInt(x)
NumCmp(a, b) == IF a = b THEN 0 ELSE IF NumLE(a, b) THEN -1 ELSE 1
VarCmp(S, v, w) ==
    IF v.t # w.t THEN (IF TypeRank(v.t) < TypeRank(w.t) THEN -1 ELSE 1)
    ELSE IF v.fn # "" \/ w.fn # "" THEN (IF v.fn = w.fn THEN 0 ELSE IF v.fn = "" THEN -1 ELSE IF w.fn = "" THEN 1
                                          ELSE Cmp(v.fname, w.fname))
    ELSE IF v.choice # << >> \/ w.choice # << >> THEN WordCmp(S, v.ctext, w.ctext)
    ELSE LET rc == IF v.regex = << >> /\ w.regex = << >> THEN 0
                   ELSE IF v.regex = << >> THEN -1 ELSE IF w.regex = << >> THEN 1
                   ELSE LET P(a, b) == LET c == WordCmp(S, a.txt, b.txt) IN
                                       IF c # 0 THEN c ELSE IF a.inv = b.inv THEN 0 ELSE IF a.inv THEN 1 ELSE -1
                        IN LET common == IF Len(v.regex) < Len(w.regex) THEN Len(v.regex) ELSE Len(w.regex)
                               c == SeqCmp(SubSeq(v.regex, 1, common), SubSeq(w.regex, 1, common), P)
                           IN IF c # 0 THEN c ELSE IF Len(v.regex) < Len(w.regex) THEN -1
                              ELSE IF Len(v.regex) > Len(w.regex) THEN 1 ELSE 0
         IN IF rc # 0 THEN rc
            ELSE IF v.t = "decimal64" /\ v.fd # w.fd THEN (IF v.fd < w.fd THEN -1 ELSE 1)
            ELSE IF v.t \in IntTypes \cup StrTypes \cup {"decimal64"}
            THEN IF Len(v.ranges) # Len(w.ranges) THEN (IF Len(v.ranges) < Len(w.ranges) THEN -1 ELSE 1)
                 ELSE LET P(a, b) == LET l == IF a.haslo /\ b.haslo THEN NumCmp(NumOf(v, a.lo), NumOf(w, b.lo))
                                              ELSE IF a.haslo = b.haslo THEN 0 ELSE IF a.haslo THEN -1 ELSE 1
                                     IN IF l # 0 THEN l ELSE NumCmp(NumOf(v, a.hi), NumOf(w, b.hi))
                      IN SeqCmp(v.ranges, w.ranges, P)
            ELSE 0
(* two nodes standing for the same alternative at one place *)
SameNode(S, a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "cmd" -> WordCmp(S, a.name, b.name) = 0
         [] a.k = "var" -> VarCmp(S, a.var, b.var) = 0
         [] OTHER -> a.tree = b.tree

NodeCmp(S, hp, a, b) ==
    LET x == hp[a] y == hp[b] IN
    IF x.k = "ref" /\ y.k = "ref" THEN 0 ELSE IF x.k = "ref" THEN 1 ELSE IF y.k = "ref" THEN -1
    ELSE IF x.k = "cmd" /\ y.k = "cmd" THEN WordCmp(S, x.name, y.name)
    ELSE IF x.k = "var" /\ y.k = "var" THEN VarCmp(S, x.var, y.var)
    ELSE IF x.name = y.name THEN (IF x.k = "cmd" THEN -1 ELSE 1)
    ELSE Cmp(x.name, y.name)
\* stable sorting
SortBy(s, acc, P(_, _)) ==
    LET RECURSIVE Ins(_, _)
        Ins(t, x) == IF t = << >> THEN << x >>
                     ELSE IF P(t[Len(t)], x) <= 0 THEN Append(t, x)
                     ELSE Append(Ins(SubSeq(t, 1, Len(t) - 1), x), t[Len(t)])
        RECURSIVE Srt(_, _)
        Srt(t, r) == IF t = << >> THEN r ELSE Srt(Tail(t), Ins(r, t[1]))
    IN Srt(s, acc)

SortKids(S, hp, ks) == LET P(a, b) == NodeCmp(S, hp, a, b) IN SortBy(ks, << >>, P)

--------------------------------------------------------------------------------
(*                   What a specification's text denotes                       *)
(* hp: heap; ps: positions reached, without repetition.  An expression leads   *)
(* from positions to positions.                                                *)
RECURSIVE AddSeq(_, _)
AddSeq(ps, qs) == IF qs = << >> THEN ps
                  ELSE AddSeq(IF Contains(ps, qs[1]) THEN ps ELSE Append(ps, qs[1]), Tail(qs))
\* the kid of p equal to node n, added if there is none
Step(S, hp, p, n) ==
    LET same == {i \in 1..Len(hp[p].kids) : SameNode(S, hp[hp[p].kids[i]], n)} IN
    IF same # {}
    THEN LET id == hp[p].kids[CHOOSE i \in same : TRUE] IN
         [hp |-> IF hp[id].help = << >> THEN [hp EXCEPT ![id].help = n.help] ELSE hp, id |-> id]
    ELSE LET id == Len(hp) + 1 IN
         [hp |-> Append([hp EXCEPT ![p].kids = Append(@, id)], n), id |-> id]
RECURSIVE StepAll(_, _, _, _, _)
StepAll(S, hp, ps, n, acc) ==
    IF ps = << >> THEN [hp |-> hp, ps |-> acc]
    ELSE LET r == Step(S, hp, ps[1], n) IN
         StepAll(S, r.hp, Tail(ps), n, AddSeq(acc, << r.id >>))
RECURSIVE Build(_, _, _, _)
Build(S, hp, ps, e) ==
    CASE e.k = "cmd" -> StepAll(S, hp, ps, [Node0 EXCEPT !.k = "cmd", !.name = e.name, !.help = e.help], << >>)
      [] e.k = "var" -> StepAll(S, hp, ps, [Node0 EXCEPT !.k = "var", !.name = e.var.name, !.var = e.var, !.help = e.help], << >>)
      [] e.k = "ref" -> StepAll(S, hp, ps, [Node0 EXCEPT !.k = "ref", !.tree = e.tree, !.rm = e.rm, !.pipe = e.pipe], << >>)
      [] e.k = "seq" -> LET r == Build(S, hp, ps, e.a) IN Build(S, r.hp, r.ps, e.b)
      [] e.k = "alt" -> LET r == Build(S, hp, ps, e.a)  q == Build(S, r.hp, ps, e.b)
                        IN [hp |-> q.hp, ps |-> AddSeq(r.ps, q.ps)]
      [] e.k = "opt" -> LET r == Build(S, hp, ps, e.a) IN [hp |-> r.hp, ps |-> AddSeq(ps, r.ps)]
      [] e.k = "grp" -> Build(S, hp, ps, e.a)
(* a statement [e, term, cbs, hide, labels, block, sub] from positions ps *)
RECURSIVE MarkEnds(_, _, _), MarkSets(_, _), BuildAll(_, _, _, _)
MarkEnds(hp, ps, st) ==
    IF ps = << >> THEN hp
    ELSE MarkEnds([hp EXCEPT ![ps[1]] = [@ EXCEPT
            !.end = @ \/ st.term, !.cbs = @ \o st.cbs,
            !.hide = @ \/ st.hide, !.labels = IF st.labels # << >> THEN st.labels ELSE @]], Tail(ps), st)
MarkSets(hp, ps) == IF ps = << >> THEN hp ELSE MarkSets([hp EXCEPT ![ps[1]].sets = TRUE], Tail(ps))
BuildStmt(S, hp, ps, st) ==
    LET r == Build(S, hp, ps, st.e)
        h1 == MarkEnds(r.hp, r.ps, st)
    IN IF st.block = "none" THEN h1
       ELSE BuildAll(S, IF st.block = "set" THEN MarkSets(h1, r.ps) ELSE h1, r.ps, st.sub)
BuildAll(S, hp, ps, sts) ==
    IF sts = << >> THEN hp ELSE BuildAll(S, BuildStmt(S, hp, ps, sts[1]), ps, Tail(sts))
TreeIdx(S, name) == LET s == {i \in 1..Len(S.trees) : S.trees[i].name = name} IN
                    IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
\* a section [name, pipe, dflt, stmts] becomes a tree
AddTree(S, sec) ==
    LET root == Len(S.heap) + 1
        hp == BuildAll(S, Append(S.heap, Node0), << root >>, sec.stmts)
    IN [S EXCEPT !.heap = [i \in 1..Len(hp) |-> IF i < root THEN hp[i] ELSE [hp[i] EXCEPT !.kids = SortKids(S, hp, @)]],
                 !.trees = Append(@, [name |-> sec.name, text |-> sec.text, root |-> root, wp |-> 0, pipe |-> sec.pipe, dflt |-> sec.dflt]),
                 !.active = IF S.trees = << >> THEN sec.name ELSE @]
RECURSIVE AddTrees(_, _)
AddTrees(S, secs) == IF secs = << >> THEN S ELSE AddTrees(AddTree(S, secs[1]), Tail(secs))

--------------------------------------------------------------------------------
(*                       Alternatives at one place                             *)
(* An alternative (entry): n its node, k "cmd" or "var", txt the keyword,      *)
(* isvar: it stands for a variable, flt labels removed below, top: it came     *)
(* from the top of a referenced tree, whose (outermost) reference carries      *)
(* callbacks rcbs and is a pipe or not, cbs callbacks, help.                   *)
Entry(S, id, flt, top, rcbs, rpipe) ==
    LET x == S.heap[id] IN
    [n |-> id, k |-> x.k, txt |-> x.name, isvar |-> x.k = "var", flt |-> flt, top |-> top, rcbs |-> rcbs,
     rpipe |-> rpipe, cbs |-> x.cbs, help |-> x.help]
EntryCmp(S, a, b) ==
    IF a.k = "cmd" /\ b.k = "cmd" THEN WordCmp(S, a.txt, b.txt)
    ELSE IF a.k = "var" /\ b.k = "var" THEN VarCmp(S, S.heap[a.n].var, S.heap[b.n].var)
    ELSE Cmp(a.txt, b.txt)
\* words entered so far without keywords, the first entry being the line
NoKeys(bs) == SelectSeq(bs, LAMBDA b : ~b.key)
LineBind(line) == [name |-> << 99, 109, 100 >>, t |-> "rest", s |-> line, key |-> FALSE]
\* what expansion function fn returns: [vals, helps], possibly made of the values entered
ExOf(S, fn) == S.ex[CHOOSE i \in 1..Len(S.ex) : S.ex[i].fn = fn]
ExVals(S, fn, binds) ==
    LET x == ExOf(S, fn)
        vals == NoKeys(binds)
    IN IF x.mode = "list" THEN x.vals
       ELSE [i \in 1..(Len(vals) - 1) |-> x.prefix \o vals[i + 1].s] \o << << 98, 97, 115, 101 >> >>

None == << >>
\* the entries node id stands for: [ents, xc], xc the calls of expansion functions made
NodeEnts(S, id, hide, expandvar, flt, pflt, top, rcbs, rpipe, binds) ==
    LET x == S.heap[id]
        e == Entry(S, id, flt \cup pflt, top, rcbs, rpipe)
    IN IF (hide /\ x.hide) \/ (\E i \in 1..Len(x.labels) : x.labels[i] \in flt \cup pflt)
       THEN [ents |-> None, xc |-> None]
       ELSE IF x.k = "var" /\ x.var.choice # << >>
       THEN [ents |-> [i \in 1..Len(x.var.choice) |-> [e EXCEPT !.k = "cmd", !.txt = x.var.choice[i]]], xc |-> None]
       ELSE IF x.k = "var" /\ x.var.fn # ""
       THEN IF ~expandvar THEN [ents |-> None, xc |-> None]
            ELSE LET vals == ExVals(S, x.var.fn, binds)
                     helps == ExOf(S, x.var.fn).helps
                 IN [ents |-> [i \in 1..Len(vals) |-> [e EXCEPT !.k = "cmd", !.txt = vals[i],
                                                        !.help = IF i <= Len(helps) THEN << helps[i] >> ELSE @]],
                     xc |-> << [fn |-> x.var.fn, cvv |-> NoKeys(binds), args |-> x.var.fargs] >>]
       ELSE [ents |-> << e >>, xc |-> None]
\* in order
SortedKids(S, id) == S.heap[id].kids
TopOf(S, tree) == LET t == S.trees[TreeIdx(S, tree)] IN IF t.wp # 0 THEN t.wp ELSE t.root
RECURSIVE Collect(_, _, _, _, _, _, _, _), RefEnts(_, _, _, _, _, _, _, _, _, _)
\* a referenced tree: its alternatives at the top, those of its own references included
RefEnts(S, kids, hide, expandvar, flt, pflt, rcbs, rpipe, binds, acc) ==
    IF kids = << >> THEN acc
    ELSE LET x == S.heap[kids[1]]
             r == IF x.k = "ref"
                  THEN RefEnts(S, SortedKids(S, TopOf(S, x.tree)), hide, expandvar,
                               flt \cup {x.rm[i] : i \in 1..Len(x.rm)}, pflt, rcbs, rpipe, binds, acc)
                  ELSE LET q == NodeEnts(S, kids[1], hide, expandvar, flt, pflt, TRUE, rcbs, rpipe, binds)
                       IN [ents |-> acc.ents \o q.ents, xc |-> acc.xc \o q.xc]
         IN RefEnts(S, Tail(kids), hide, expandvar, flt, pflt, rcbs, rpipe, binds, r)
Collect(S, kids, hide, expandvar, pflt, binds, dummy, acc) ==
    IF kids = << >> THEN acc
    ELSE LET x == S.heap[kids[1]]
             r == IF x.k = "ref"
                  THEN RefEnts(S, SortedKids(S, TopOf(S, x.tree)), hide, expandvar,
                               {x.rm[i] : i \in 1..Len(x.rm)}, pflt, x.cbs, x.pipe, binds, acc)
                  ELSE LET q == NodeEnts(S, kids[1], hide, expandvar, {}, pflt, FALSE, None, FALSE, binds)
                       IN [ents |-> acc.ents \o q.ents, xc |-> acc.xc \o q.xc]
         IN Collect(S, Tail(kids), hide, expandvar, pflt, binds, dummy, r)
(* the place below entry e (or node id): pipedef a pipe offered where a command with callbacks ends *)
Place(S, id, flt, ecbs, hide, expandvar, binds, pipedef) ==
    LET x == S.heap[id]
        piped == x.end /\ x.cbs # None /\ pipedef # ""
        p == IF piped
             THEN RefEnts(S, SortedKids(S, TopOf(S, pipedef)), hide, expandvar, {}, flt, ecbs, TRUE, binds,
                          [ents |-> None, xc |-> None])
             ELSE [ents |-> None, xc |-> None]
        r == Collect(S, SortedKids(S, id), hide, expandvar, flt, binds, 0, p)
        P(a, b) == EntryCmp(S, a, b)
    IN [ents |-> SortBy(r.ents, None, P), empty |-> x.end, sets |-> x.sets, xc |-> r.xc]

--------------------------------------------------------------------------------
(*                          Matching one word                                  *)
VarPref(v) ==
    LET r == v.ranges # << >> IN
    IF v.pref > 0 THEN v.pref
    ELSE CASE v.t = "int8" -> IF r THEN 60 ELSE 52   [] v.t = "int16" -> IF r THEN 58 ELSE 50
           [] v.t = "int32" -> IF r THEN 56 ELSE 48  [] v.t = "int64" -> IF r THEN 54 ELSE 46
           [] v.t = "uint8" -> IF r THEN 59 ELSE 51  [] v.t = "uint16" -> IF r THEN 57 ELSE 49
           [] v.t = "uint32" -> IF r THEN 55 ELSE 47 [] v.t = "uint64" -> IF r THEN 53 ELSE 45
           [] v.t = "decimal64" -> 62  [] v.t = "bool" -> 12  [] v.t = "rest" -> 1
           [] v.t = "string" -> IF v.fn # "" THEN 8 ELSE IF v.regex # << >> THEN 7 ELSE 5
           [] v.t = "interface" -> 10  [] v.t \in {"ipv4addr", "ipv4prefix"} -> 70
           [] v.t \in {"ipv6addr", "ipv6prefix"} -> 71 [] v.t = "macaddr" -> 72 [] v.t = "url" -> 20
           [] v.t = "uuid" -> 73 [] v.t = "time" -> 74 [] OTHER -> 0
IsRest(S, e) == S.heap[e.n].k = "var" /\ S.heap[e.n].var.t = "rest"
\* the word an entry sees: the rest of the line for a rest-of-line variable
WordFor(S, e, Q, i) == IF e.k = "var" /\ IsRest(S, e) THEN Q.rests[i] ELSE Q.toks[i]
MatchesEntry(S, e, w, exacting) ==
    IF e.k = "cmd"
    THEN LET t == IF exacting /\ e.txt # << >> /\ e.txt[1] = DQ THEN Tail(e.txt) ELSE e.txt
         IN Pre(Fold(w, S.cfg.caseignore), Fold(t, S.cfg.caseignore))
    ELSE IF w = << >> /\ ~exacting THEN TRUE
    ELSE ValueOf(S.heap[e.n].var, w).ok
IsExact(e, w, exacting) ==
    IF exacting /\ e.txt # << >> /\ e.txt[1] = DQ
    THEN LET n == Len(e.txt) - 1 IN Len(w) = IF n > 0 /\ e.txt[Len(e.txt)] = DQ THEN n - 1 ELSE n
    ELSE Len(w) = Len(e.txt)
PrefOf(S, e, w, exacting) ==
    LET v == S.heap[e.n].var IN
    IF e.isvar /\ v.pref > 0 THEN v.pref
    ELSE IF e.k = "cmd" THEN (IF IsExact(e, w, exacting) THEN 100 ELSE 3)
    ELSE VarPref(v)
\* a variable's translation function is applied to the value, once
Translate(tr, s) == CASE tr = "tr0" -> << 116, 95 >> \o s
                      [] tr = "tr1" -> [i \in 1..Len(s) |-> IF s[i] \in 97..122 THEN s[i] - 32 ELSE s[i]]
                      [] OTHER -> s
Bind(S, e, w) ==
    LET v == S.heap[e.n].var IN
    IF e.isvar THEN [name |-> v.name, t |-> v.t,
                     s |-> Translate(v.tr, ValueOf([v EXCEPT !.ranges = << >>, !.regex = << >>], w).txt), key |-> FALSE]
    ELSE [name |-> e.txt, t |-> "string", s |-> e.txt, key |-> TRUE]
Idx(P(_), i, n) == LET RECURSIVE I(_)
                       I(j) == IF j > n THEN << >> ELSE (IF P(j) THEN << j >> ELSE << >>) \o I(j + 1)
                   IN I(i)
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
(* candidates for word i among the entries of a place L, used being those of a *)
(* set already given: indexes, or none with a reason                           *)
Candidates(S, L, used, i, exacting, Q) ==
    LET last == i = Len(Q.toks)
        n == Len(L.ents)
        m == [j \in 1..n |-> MatchesEntry(S, L.ents[j], WordFor(S, L.ents[j], Q, i), exacting)]
        ok(j) == m[j] /\ j \notin used
        all == Idx(ok, 1, n)
        p(j) == PrefOf(S, L.ents[j], WordFor(S, L.ents[j], Q, i), exacting)
        top == MaxOf({p(all[x]) : x \in 1..Len(all)})
        isTop(j) == ok(j) /\ p(j) = top
        tops == Idx(isTop, 1, n)
        firstOnly == \/ S.cfg.pref = 1 /\ last
                     \/ S.cfg.pref = 2 /\ ~last
                     \/ S.cfg.pref = 3
        keep(j) == isTop(j) /\ (j = tops[1] \/ ~(firstOnly /\ L.ents[tops[1]].k = "var" /\ L.ents[j].k = "var"))
    IN IF all = << >> THEN << >> ELSE IF exacting THEN Idx(keep, 1, n) ELSE all

--------------------------------------------------------------------------------
(*                      Callbacks of a referenced command                      *)
(* own: the command's callbacks; ref: those of the reference it was reached by *)
Overlay(own, ref) ==
    IF own = None THEN ref
    ELSE IF ~own[1].pipe THEN [own EXCEPT ![1].fn = ref[1].fn, ![1].args = @ \o ref[1].args]
    ELSE own \o ref

--------------------------------------------------------------------------------
(*                        Matching a line of words                             *)
(* Walk: word i at place L. Q = [toks, rests, exact]: exact when the line is to *)
(* be executed, otherwise the alternatives for its last word are asked for.    *)
(* C = [cbs, pipe]: callbacks of the innermost reference, default pipe.        *)
(* Result [ents, lev, why, binds, mark, xc]: entries matching at word lev; mark *)
(* the index in L of an entry completely matched (0 none).                     *)
Result(ents, lev, why, binds, mark, xc) ==
    [ents |-> ents, lev |-> lev, why |-> why, binds |-> binds, mark |-> mark, xc |-> xc]
LocalPipe(S, id) == LET ks == SortedKids(S, id)
                        P(j) == S.heap[ks[j]].k = "ref" /\ S.heap[ks[j]].pipe
                        ps == Idx(P, 1, Len(ks))
                    IN IF ps = << >> THEN "" ELSE S.heap[ks[ps[1]]].tree
RECURSIVE Walk(_, _, _, _, _, _, _), SetLoop(_, _, _, _, _, _, _, _, _)
Walk(S, L, used, i, Q, C, binds) ==
    LET last == i = Len(Q.toks)
        cand == Candidates(S, L, used, i, Q.exact \/ ~last, Q)
        w == Q.toks[i]
        \* a reason of its own: a value that is no value, an element already given
        told == \E j \in 1..Len(L.ents) :
                   L.ents[j].k = "var" \/ (j \in used /\ MatchesEntry(S, L.ents[j], WordFor(S, L.ents[j], Q, i), Q.exact \/ ~last))
    IN IF cand = << >> THEN Result(None, i, IF told THEN "bad" ELSE "", binds, 0, None)
       ELSE IF Len(cand) > 1
       THEN IF last
            THEN Result([x \in 1..Len(cand) |-> L.ents[cand[x]]], i, "",
                        IF Q.exact THEN Append(binds, Bind(S, L.ents[cand[1]], WordFor(S, L.ents[cand[1]], Q, i))) ELSE binds,
                        0, None)
            ELSE Result(None, i, "amb", binds, 0, None)
       ELSE
       LET e0 == L.ents[cand[1]]
           b1 == IF ~last \/ Q.exact THEN Append(binds, Bind(S, e0, WordFor(S, e0, Q, i))) ELSE binds
           viaRef == e0.top /\ e0.rcbs # None
           pd1 == IF viaRef /\ e0.rpipe THEN "" ELSE C.pipe
           cbs1 == IF viaRef THEN e0.rcbs ELSE C.cbs
           e == IF cbs1 # None /\ S.heap[e0.n].end THEN [e0 EXCEPT !.cbs = Overlay(@, cbs1)] ELSE e0
           me == cand[1]
           here == Result(<< e >>, i, "", b1, 0, None)
       IN IF (last \/ (e.k = "var" /\ IsRest(S, e))) /\ w # << >>
          THEN [here EXCEPT !.mark = me]
          ELSE
          LET lp == LocalPipe(S, e.n)
              LL == Place(S, e.n, e.flt, e.cbs, ~Q.exact, TRUE, b1, IF lp = "" THEN pd1 ELSE "")
              C1 == [cbs |-> cbs1, pipe |-> IF lp # "" THEN lp ELSE pd1]
          IN IF LL.ents = << >> THEN [here EXCEPT !.mark = me, !.xc = LL.xc]
             ELSE IF last THEN [here EXCEPT !.xc = LL.xc]
             ELSE LET r == IF LL.sets THEN SetLoop(S, LL, {}, i, Q, C1, b1, None, LL.xc)
                           ELSE LET q == Walk(S, LL, {}, i + 1, Q, C1, b1)
                                IN [cur |-> [q EXCEPT !.xc = LL.xc \o @], prev |-> None]
                  IN IF r.cur.ents = << >> /\ r.prev # None
                     THEN [r.prev[1] EXCEPT !.why = IF @ = "" THEN r.cur.why ELSE @, !.mark = me, !.xc = r.cur.xc]
                     ELSE IF r.cur.ents = << >> /\ LL.empty
                     THEN [here EXCEPT !.why = r.cur.why, !.mark = me, !.xc = r.cur.xc]
                     ELSE [r.cur EXCEPT !.mark = IF Len(r.cur.ents) = 1 THEN me ELSE 0]
(* elements of a set, each at most once, until no more words or no element fits *)
SetLoop(S, LL, used, lev, Q, C, binds, prev, xc) ==
    IF lev >= Len(Q.toks) THEN [cur |-> [prev[1] EXCEPT !.xc = xc], prev |-> prev]
    ELSE LET r == Walk(S, LL, used, lev + 1, Q, C, binds)
             xc1 == xc \o r.xc
         IN IF Len(r.ents) # 1 THEN [cur |-> [r EXCEPT !.xc = xc1], prev |-> prev]
            ELSE SetLoop(S, LL, used \cup (IF r.mark # 0 THEN {r.mark} ELSE {}), r.lev, Q, C, r.binds, << r >>, xc1)

(* the outcome of a line at place L: entries, reason, class *)
AllSame(S, es) == \A j \in 1..Len(es) : es[j].k = "cmd" /\ Fold(es[j].txt, S.cfg.caseignore) = Fold(es[1].txt, S.cfg.caseignore)
Outcome(S, L, Q, pipedef, binds0) ==
    LET r == Walk(S, L, {}, 1, Q, [cbs |-> None, pipe |-> pipedef], binds0)
        short == r.lev < Len(Q.toks) /\ ~(Len(r.ents) = 1 /\ r.ents[1].k = "var" /\ IsRest(S, r.ents[1]))
        es1 == IF short THEN None ELSE r.ents
        es == IF Len(es1) > 1 /\ AllSame(S, es1) THEN << es1[1] >> ELSE es1
        inc == Len(es) = 1 /\ Q.exact /\ ~S.heap[es[1].n].end
        cls == IF inc THEN "inc" ELSE IF Len(es) = 1 THEN "ok" ELSE IF Len(es) > 1 THEN "multi"
               ELSE IF r.why = "amb" THEN "amb" ELSE "bad"
    IN [cls |-> cls, ents |-> IF inc THEN None ELSE es, binds |-> r.binds, xc |-> r.xc]
ActiveTree(S) == S.trees[TreeIdx(S, S.active)]
\* a line to be executed in tree
LineOutcome(S, line, tree) ==
    LET s == Trim(line, S.cfg.comment)
        wd == Words(s)
        L == Place(S, S.trees[TreeIdx(S, tree)].root, {}, None, FALSE, FALSE, << LineBind(s) >>, "")
        o == Outcome(S, L, [toks |-> wd.toks, rests |-> wd.rests, exact |-> TRUE], ActiveTree(S).dflt, << LineBind(s) >>)
    IN o

(* the values handed to callbacks: options expand the first entry and leave out keywords *)
CallVals(S, binds) ==
    LET rest == Tail(binds)
        first == IF S.cfg.exfirst THEN [binds[1] EXCEPT !.s = Join([i \in 1..Len(rest) |-> rest[i].s], << SP >>)] ELSE binds[1]
    IN << first >> \o (IF S.cfg.exkeys THEN NoKeys(rest) ELSE rest)
--------------------------------------------------------------------------------
(*                        Completion and help                                  *)
(* Both look at the active tree; hidden alternatives are left out.             *)
Lookup(S, line) ==
    LET wd == Words(line)
        L == Place(S, ActiveTree(S).root, {}, None, TRUE, FALSE, << LineBind(line) >>, "")
    IN [wd |-> wd, L |-> L,
        o |-> Outcome(S, L, [toks |-> wd.toks, rests |-> wd.rests, exact |-> FALSE], ActiveTree(S).dflt, << LineBind(line) >>)]
RECURSIVE LcpAll(_, _, _)
LcpAll(es, n, ci) == IF Len(es) < 2 THEN n
                     ELSE LET l == Lcp(Fold(es[1].txt, ci), Fold(es[2].txt, ci))
                          IN LcpAll(<< es[1] >> \o SubSeq(es, 3, Len(es)), IF l < n THEN l ELSE n, ci)
\* the text TAB inserts after the text left of the cursor
Completion(S, left) ==
    LET k == Lookup(S, left)
        cmds == SelectSeq(k.o.ents, LAMBDA e : e.k = "cmd")
        tlen == Len(k.wd.toks[Len(k.wd.toks)])
        n == LcpAll(cmds, Len(cmds[1].txt), S.cfg.caseignore)
        same == \A i \in 1..Len(cmds) : Fold(cmds[i].txt, S.cfg.caseignore) = Fold(cmds[1].txt, S.cfg.caseignore)
    IN IF cmds = << >> THEN << >>
       ELSE SubSeq(cmds[1].txt, tlen + 1, n) \o (IF same THEN << S.cfg.delim >> ELSE << >>)
\* an alternative's text in a list
Shown(S, e) == IF e.k = "cmd" THEN e.txt
               ELSE LET v == S.heap[e.n].var IN << 60 >> \o (IF v.show # << >> THEN v.show ELSE v.name) \o << 62 >>
RECURSIVE DropDup(_, _, _)
\* consecutive equal rows appear once
DropDup(rows, acc, withHelp) ==
    IF rows = << >> THEN acc
    ELSE LET r == rows[1]
             dup == acc # << >> /\ LET p == acc[Len(acc)] IN
                      p.cmd = r.cmd /\ (withHelp => (p.help = << >>) = (r.help = << >>) /\ (r.help # << >> => p.help[1] = r.help[1]))
         IN DropDup(Tail(rows), IF dup THEN acc ELSE Append(acc, r), withHelp)
RowsOf(S, es) == [i \in 1..Len(es) |-> [cmd |-> Shown(S, es[i]), help |-> es[i].help]]
\* complete: the line without its last, empty word is a command
EndsHere(S, k) ==
    /\ Len(k.wd.toks) > 1 /\ k.wd.toks[Len(k.wd.toks)] = << >>
    /\ LET n == Len(k.wd.toks) - 1
           Q == [toks |-> SubSeq(k.wd.toks, 1, n), rests |-> SubSeq(k.wd.rests, 1, n), exact |-> TRUE]
       IN Outcome(S, k.L, Q, ActiveTree(S).dflt, << LineBind(<< >>) >>).cls = "ok"
(* lines of help text, blanks squeezed: the keyword then its help, further help lines on their own *)
(* where the terminal is narrow: help starts in a column of its own and, when so configured, is cut at the margin *)
HelpRoom(S, rows) == LET W == IF S.cfg.width < 21 THEN 21 ELSE S.cfg.width
                         wide == {Len(rows[i].cmd) + 1 : i \in 1..Len(rows)} \cup {21}
                     IN W - (CHOOSE n \in wide : \A m \in wide : m <= n) - 3
Cut(S, room, t) == IF S.cfg.htrunc /\ room >= 0 /\ Len(t) > room THEN SubSeq(t, 1, room) ELSE t
RECURSIVE HelpLines(_, _, _)
HelpLines(S, rows, room) ==
    IF rows = << >> THEN << >>
    ELSE LET r == rows[1]
             n == IF S.cfg.hlines > 0 /\ S.cfg.hlines < Len(r.help) THEN S.cfg.hlines ELSE Len(r.help)
             one == IF n = 0 THEN << Squeeze(r.cmd) >>
                    ELSE [i \in 1..n |-> IF i = 1 THEN Squeeze(r.cmd \o << SP >> \o Cut(S, room, r.help[1])) ELSE Squeeze(Cut(S, room, r.help[i]))]
         IN one \o HelpLines(S, Tail(rows), room)
CrText == << 60, 99, 114, 62 >>
HelpText(S, line) ==
    LET k == Lookup(S, line) IN
    (IF EndsHere(S, k) THEN << CrText >> ELSE << >>) \o
    LET rows == DropDup(RowsOf(S, k.o.ents), << >>, TRUE) IN
    SelectSeq(HelpLines(S, rows, HelpRoom(S, rows)), LAMBDA x : x # << >>)       \* blank rows do not count
\* TAB lists the alternatives alone, in columns
TabList(S, line) ==
    LET k == Lookup(S, line)
        rows == DropDup(RowsOf(S, k.o.ents), << >>, FALSE)
    IN [i \in 1..Len(rows) |-> Squeeze(rows[i].cmd)]
================================================================================
