---------------------------------- MODULE MCCli ----------------------------------
(* Small interfaces, all of them: every specification of a family is given to    *)
(* the interpreter of Cli and, independently, to the definition of its language  *)
(* as a set of paths; both must agree on every line of up to MaxWords words.      *)
(* Every specification is also printed with what is to be observed, for the real  *)
(* code.                                                                          *)
EXTENDS Exec, Json
CONSTANTS Family, Size, Part, Every, Offset     \* of all specifications, each Every-th from Offset on
VARIABLE k

(*------------------------------ building blocks --------------------------------*)
cmd(i, s) == [k |-> "cmd", name |-> s, help |-> << >>, id |-> i]
var(i, n, t) == [k |-> "var", var |-> [NoVar EXCEPT !.name = n, !.t = t], help |-> << >>, id |-> i]
rng(i, n, t, lo, hi) == [k |-> "var", help |-> << >>, id |-> i,
    var |-> [NoVar EXCEPT !.name = n, !.t = t, !.ranges = << [haslo |-> TRUE, lo |-> lo, hi |-> hi] >>]]
prf(i, n, t, p) == [k |-> "var", help |-> << >>, id |-> i, var |-> [NoVar EXCEPT !.name = n, !.t = t, !.pref = p]]
seq(a, b) == [k |-> "seq", a |-> a, b |-> b]
alt(a, b) == [k |-> "alt", a |-> a, b |-> b]
opt(a) == [k |-> "opt", a |-> a]
cb(n) == [fn |-> n, args |-> << >>, pipe |-> FALSE]
st(e, n) == [e |-> e, term |-> TRUE, cbs |-> << cb(n) >>, hide |-> FALSE, labels |-> << >>, block |-> "none", sub |-> << >>]
under(e, sub) == [e |-> e, term |-> FALSE, cbs |-> << >>, hide |-> FALSE, labels |-> << >>, block |-> "plain", sub |-> sub]
both(e, n, sub) == [e |-> e, term |-> TRUE, cbs |-> << cb(n) >>, hide |-> FALSE, labels |-> << >>, block |-> "plain", sub |-> sub]
setof(e, n, sub) == [e |-> e, term |-> TRUE, cbs |-> << cb(n) >>, hide |-> FALSE, labels |-> << >>, block |-> "set", sub |-> sub]
hidden(s) == [s EXCEPT !.hide = TRUE]
labelled(s, l) == [s EXCEPT !.labels = << l >>]
a == << 97 >>  ab == << 97, 98 >>  abc == << 97, 98, 99 >>  b == << 98 >>  c == << 99 >>  cd == << 99, 100 >>  one == << 49 >>  z == << 122 >>  n300 == << 51, 48, 48 >>
xx == << 120 >>  ss == << 115 >>  yy == << 121 >>
Atoms == CASE Family \in {"expr", "stmts"} -> << cmd(1, a), cmd(2, ab), cmd(3, b), var(4, xx, "int32"), var(5, ss, "string") >>
           [] Family = "words" -> << cmd(1, a), cmd(2, ab), cmd(3, abc), cmd(4, b) >>
           [] Family = "prefs" -> << cmd(1, a), var(2, xx, "int32"), rng(3, yy, "int32", one, << 57 >>), var(4, << 119 >>, "uint8"), prf(5, ss, "string", 60),
                                     rng(6, z, "string", << 51 >>, << 51 >>), var(7, << 117 >>, "rest") >>
           [] Family = "sets" -> << cmd(1, a), cmd(2, b), cmd(3, ab), var(4, xx, "int32"), cmd(5, c) >>
           [] OTHER -> << cmd(1, a), cmd(2, ab), cmd(3, c), cmd(4, cd), var(5, xx, "int32") >>
NAtoms == Len(Atoms)
RECURSIVE Exprs(_, _)
Exprs(as, n) == IF n = 0 THEN as
                ELSE {opt(e) : e \in Exprs(as, n - 1)}
                     \cup UNION {{seq(e, f) : e \in Exprs(as, i), f \in Exprs(as, n - 1 - i)} : i \in 0..(n - 1)}
                     \cup UNION {{alt(e, f) : e \in Exprs(as, i), f \in Exprs(as, n - 1 - i)} : i \in 0..(n - 1)}
RECURSIVE MayBeEmpty(_)
MayBeEmpty(e) == CASE e.k = "seq" -> MayBeEmpty(e.a) /\ MayBeEmpty(e.b)
                   [] e.k = "alt" -> MayBeEmpty(e.a) \/ MayBeEmpty(e.b)
                   [] e.k = "opt" -> TRUE
                   [] OTHER -> FALSE
Proper(es) == {e \in es : ~MayBeEmpty(e)}
At(is) == {Atoms[i] : i \in is}
\* at most one variable begins at a place: which of two one means is another family's matter
(*--------------------------------- families -----------------------------------*)
UpTo(as, n) == UNION {Exprs(as, i) : i \in 0..n}
Lists ==
    CASE Family = "refs" -> {}
      [] Family = "expr" -> {<< st(e, "cb0") >> : e \in Proper(UpTo(At(1..5), Size))}
      [] Family = "words" -> {<< st(e, "cb0") >> : e \in Proper(UpTo(At(1..4), Size))}
      [] Family = "stmts" ->
           LET E == Proper(UpTo(At({1, 2, 4, 5}), Size)) P == {e \in E : e.k # "alt" \/ e.a # e.b} IN
              {<< st(e, "cb0"), st(f, "cb1") >> : e \in P, f \in P}
              \cup {<< both(e, "cb0", << st(f, "cb1") >>), st(g, "cb2") >> : e \in At({1, 2}) \cup {alt(Atoms[1], Atoms[2])}, f \in P, g \in P}
              \cup {<< under(e, << st(f, "cb0") >>), st(g, "cb1") >> : e \in P, f \in At({1, 4}), g \in P}
      [] Family = "prefs" ->
           UNION {{<< st(Atoms[q[1]], "cb0"), st(Atoms[q[2]], "cb1"), st(Atoms[q[3]], "cb2"), st(seq(Atoms[q[1]], Atoms[q[4]]), "cb3") >>
                    : q \in {q \in [1..4 -> 1..7] : q[1] < q[2] /\ q[2] < q[3] /\ (q[1] # q[4] \/ Size > 1)}}}
      [] Family = "sets" ->
           LET E == At(1..5) \cup {seq(Atoms[2], Atoms[5]), seq(Atoms[3], Atoms[4])}
               T == {st(e, "cb1") : e \in E} \cup {both(Atoms[3], "cb2", << st(Atoms[5], "cb3") >>)}
               L2 == {<< s, t >> : s \in T, t \in T}
               L3 == IF Size < 2 THEN {} ELSE {<< s, t, u >> : s \in T, t \in T, u \in T} IN
           {<< setof(Atoms[1], "cb0", l) >> : l \in L2 \cup L3}
           \cup {<< [setof(Atoms[1], "cb0", l) EXCEPT !.term = FALSE, !.cbs = << >>] >> : l \in L2}
      [] Family = "hide" ->
           LET E == Proper(UpTo(At({1, 2, 5}), Size)) IN
           {<< hidden(st(e, "cb0")), st(f, "cb1") >> : e \in E, f \in E}
           \cup {<< hidden(both(e, "cb0", << st(f, "cb1") >>)), st(g, "cb2") >> : e \in At({1, 2}), f \in E, g \in At({1, 2, 5})}
           \cup {<< both(e, "cb0", << hidden(st(f, "cb1")), st(g, "cb2") >>) >> : e \in At({1, 2}), f \in E, g \in At({1, 2, 5})}
(* references: tree p of two statements, one labelled; the others refer to it *)
RefPool == IF Family # "refs" THEN {} ELSE Proper(UpTo(At({3, 4, 5}), Size))
ref(n, cbs, rm) == [e |-> [k |-> "ref", tree |-> n, rm |-> rm, pipe |-> FALSE], term |-> FALSE, cbs |-> cbs, hide |-> FALSE,
                    labels |-> << >>, block |-> "none", sub |-> << >>]
sec(n, sts) == [name |-> n, text |-> IF n = "t" THEN << 116 >> ELSE IF n = "p" THEN << 112 >> ELSE << 113 >>, pipe |-> FALSE, dflt |-> "", stmts |-> sts]
RefTops == {<< r, st(Atoms[1], "cb0") >> : r \in {ref("p", << >>, << >>), ref("p", << cb("cb5") >>, << "l" >>), ref("q", << >>, << >>), ref("q", << >>, << "m" >>)}}
           \cup {<< under(Atoms[1], << r >>), st(Atoms[2], "cb0") >> : r \in {ref("p", << cb("cb5") >>, << >>), ref("q", << >>, << "l" >>)}}
           \cup {<< both(Atoms[1], "cb0", << r >>) >> : r \in {ref("p", << >>, << "l" >>), ref("q", << cb("cb5") >>, << >>)}}
Refs == {<< sec("p", << labelled(st(e, "cb1"), "l"), labelled(st(f, "cb2"), "m") >>), sec("q", << ref("p", << >>, rm) >>), sec("t", top) >>
          : e \in RefPool, f \in RefPool, rm \in {<< >>, << "l" >>}, top \in RefTops}
Specs == IF Family = "refs" THEN Refs ELSE {<< sec("t", l) >> : l \in Lists}
TheSpecs == SetToSeq(Specs)
Wide == 64
Init == k \in {Offset + i * Every : i \in 0..(Wide - 1)} /\ k <= Len(TheSpecs)
Next == k + Wide * Every <= Len(TheSpecs) /\ k' = k + Wide * Every
Spec == Init /\ [][Next]_k

(*------------------------------- lines -----------------------------------------*)
Tokens == CASE Family \in {"expr", "stmts"} -> << a, ab, b, one, z >>
            [] Family = "words" -> << a, ab, abc, b, z >>
            [] Family = "prefs" -> << a, one, << 48 >>, n300, z >>
            [] Family = "sets" -> << a, b, ab, one, c >>
            [] OTHER -> << a, ab, c, cd, one >>
MaxWords == CASE Family = "prefs" -> 2 [] Family = "sets" -> 4 [] OTHER -> 3
RECURSIVE TokSeqs(_)
TokSeqs(n) == IF n = 0 THEN << << >> >>
              ELSE LET t == TokSeqs(n - 1) IN
                   [i \in 1..(Len(t) * Len(Tokens)) |-> Append(t[((i - 1) \div Len(Tokens)) + 1], Tokens[((i - 1) % Len(Tokens)) + 1])]
JoinToks(t) == Join(t, << SP >>)
RECURSIVE LinesOf(_, _)
LinesOf(i, n) == IF i > n THEN << >> ELSE LET t == TokSeqs(i) IN [x \in 1..Len(t) |-> JoinToks(t[x])] \o LinesOf(i + 1, n)
EvalLines == IF Family = "sets"
         THEN LinesOf(1, 1) \o [x \in 1..Len(LinesOf(1, 3)) |-> a \o << SP >> \o LinesOf(1, 3)[x]]
         ELSE LinesOf(1, MaxWords)
\* typed, with a question mark and a TAB: up to two words, the last one ended or not
Typing == LET L == << << >> >> \o LinesOf(1, IF Family \in {"sets", "prefs"} THEN 1 ELSE 2) IN
          [x \in 1..(2 * Len(L) - 1) |-> IF x <= Len(L) THEN L[x] ELSE L[x - Len(L) + 1] \o << SP >>]
Keys(t) == t \o << 63, 9, 46, 10 >>

(*-------------------- the language as a set of paths ----------------------------*)
RECURSIVE Paths(_)
Paths(e) == CASE e.k = "seq" -> {p \o q : p \in Paths(e.a), q \in Paths(e.b)}
              [] e.k = "alt" -> Paths(e.a) \cup Paths(e.b)
              [] e.k = "opt" -> Paths(e.a) \cup {<< >>}
              [] OTHER -> {<< e.id >>}
\* what is said of each path, in order
RECURSIVE Marks(_, _)
Marks(sts, base) ==
    IF sts = << >> THEN << >>
    ELSE LET s == sts[1]
             ps == SetToSeq({p \o q : p \in base, q \in Paths(s.e)})
             own == [i \in 1..Len(ps) |-> [p |-> ps[i], s |-> s]]
             deep == IF s.block = "none" THEN << >> ELSE Marks(s.sub, {ps[i] : i \in 1..Len(ps)})
         IN own \o deep \o Marks(Tail(sts), base)
(* T: nodes (paths), their ends, callbacks, hidden ones *)
Trie(sts) ==
    LET M == Marks(sts, {<< >>})
        nodes == UNION {{SubSeq(M[i].p, 1, j) : j \in 1..Len(M[i].p)} : i \in 1..Len(M)}
        ends == {M[i].p : i \in {i \in 1..Len(M) : M[i].s.term}}
        hid == {M[i].p : i \in {i \in 1..Len(M) : M[i].s.hide}}
        sets == {M[i].p : i \in {i \in 1..Len(M) : M[i].s.block = "set"}}
        RECURSIVE Cbs(_, _)
        Cbs(p, i) == IF i > Len(M) THEN << >> ELSE (IF M[i].p = p THEN M[i].s.cbs ELSE << >>) \o Cbs(p, i + 1)
    IN [nodes |-> nodes, ends |-> ends, hid |-> hid, sets |-> sets, cbs |-> [p \in nodes |-> Cbs(p, 1)]]
Kids(T, p) == {i \in 1..NAtoms : Append(p, i) \in T.nodes}
Fits(i, w) == IF Atoms[i].k = "cmd" THEN Pre(w, Atoms[i].name) ELSE ValueOf(Atoms[i].var, w).ok
Pref(i, w) == IF Atoms[i].k = "cmd" THEN (IF w = Atoms[i].name THEN 100 ELSE 3) ELSE VarPref(Atoms[i].var)
Best(ks, w) == LET f == {i \in ks : Fits(i, w)} IN {i \in f : \A j \in f : Pref(j, w) <= Pref(i, w)}
\* the class of the words from the i-th on after path p, and the path it ends at
RECURSIVE Walked(_, _, _, _)
Walked(T, p, ws, i) ==
    IF i > Len(ws) THEN [c |-> IF p \in T.ends THEN "ok" ELSE "inc", p |-> p]
    ELSE LET bs == Best(Kids(T, p), ws[i]) IN
         IF bs = {} THEN [c |-> "bad", p |-> p]
         ELSE IF Cardinality(bs) > 1 THEN [c |-> IF i = Len(ws) THEN "multi" ELSE "amb", p |-> p]
         ELSE Walked(T, Append(p, CHOOSE x \in bs : TRUE), ws, i + 1)
(* sets: at a set's path, elements not given before; a word that does not go on *)
(* below an ended element is looked for in the set again                        *)
RECURSIVE InSet(_, _, _, _, _)
Deeper(T, p, ws, i) ==      \* below an element: the path reached and the next word
    LET RECURSIVE Descend(_, _)
        Descend(q, j) == IF j > Len(ws) THEN [q |-> q, j |-> j, amb |-> FALSE]
                   ELSE LET bs == Best(Kids(T, q), ws[j]) IN
                        IF Cardinality(bs) = 1 THEN Descend(Append(q, CHOOSE x \in bs : TRUE), j + 1)
                        ELSE [q |-> q, j |-> j, amb |-> bs # {}]
    IN Descend(p, i)
InSet(T, s, used, ws, i) ==  \* ws[i..] in the set at s
    LET bs == Best(Kids(T, s) \ used, ws[i]) IN
    IF Cardinality(bs) # 1 THEN FALSE
    ELSE LET x == CHOOSE x \in bs : TRUE
             d == Deeper(T, Append(s, x), ws, i + 1)
         IN IF ~(d.q \in T.ends) \/ d.amb THEN FALSE
            ELSE IF d.j > Len(ws) THEN TRUE
            ELSE InSet(T, s, used \cup {x}, ws, d.j)
SetAccepts(T, ws) ==
    /\ Best(Kids(T, << >>), ws[1]) = {1}
    /\ IF Len(ws) = 1 THEN << 1 >> \in T.ends ELSE InSet(T, << 1 >>, {}, ws, 2)
(* references: the tree's own statements in its place, the labelled removed; a   *)
(* reference's callback in the place of the command's                            *)
RECURSIVE Inline(_, _, _, _)
SecOf(secs, n) == secs[CHOOSE i \in 1..Len(secs) : secs[i].name = n].stmts
Inline(secs, sts, rm, cbs) ==
    IF sts = << >> THEN << >>
    ELSE LET s == sts[1]
             here == IF s.e.k = "ref"
                     THEN Inline(secs, SecOf(secs, s.e.tree), rm \cup {s.e.rm[i] : i \in 1..Len(s.e.rm)}, IF cbs # << >> THEN cbs ELSE s.cbs)
                     ELSE << [s EXCEPT !.sub = Inline(secs, @, rm, cbs),
                                       !.labels = [has |-> s.labels # << >>, gone |-> \E i \in 1..Len(s.labels) : s.labels[i] \in rm,
                                                   cbs |-> IF s.term THEN cbs ELSE << >>]] >>
         IN here \o Inline(secs, Tail(sts), rm, cbs)
Without(T, gone) == LET keep == {p \in T.nodes : \A j \in 1..Len(p) : SubSeq(p, 1, j) \notin gone} IN
                    [T EXCEPT !.nodes = keep, !.ends = @ \cap keep]
\* the last labels given to a command are its labels
Gone(M) == {M[i].p : i \in {i \in 1..Len(M) : M[i].s.labels.gone /\ ~\E j \in (i + 1)..Len(M) : M[j].p = M[i].p /\ M[j].s.labels.has}}
\* the first callback of a command reached by a reference with one is that one
Replaced(T, M) == [T EXCEPT !.cbs = [p \in DOMAIN @ |->
                     LET is == {i \in 1..Len(M) : M[i].p = p /\ M[i].s.labels.cbs # << >>} IN
                     IF is = {} THEN @[p] ELSE [@[p] EXCEPT ![1] = M[CHOOSE i \in is : TRUE].s.labels.cbs[1]]]]
TrieOf(secs) == IF Family = "refs"
                THEN LET i == Inline(secs, secs[Len(secs)].stmts, {}, << >>)  M == Marks(i, {<< >>}) IN Replaced(Without(Trie(i), Gone(M)), M)
                ELSE Trie(secs[1].stmts)

(*------------------------------- agreement -------------------------------------*)
\* what the interpreter makes of it
Modes == IF Family = "prefs" THEN 0..3 ELSE {0}
Ex1(secs) == AddTrees(S0, secs)
Cur == LET s == Ex1(TheSpecs[k]) IN [s EXCEPT !.active = "t"]
Sane(S, T) ==
    LET N == Len(EvalLines) IN
    \A i \in 1..N :
        LET o == LineOutcome(S, EvalLines[i], "t")  ws == Words(EvalLines[i]).toks IN
        CASE Family = "prefs" -> TRUE
          [] Family = "sets" -> (o.cls = "ok") = SetAccepts(T, ws)
          [] OTHER -> LET w == Walked(T, << >>, ws, 1) IN
                      /\ o.cls = w.c
                      /\ o.cls = "ok" => o.ents[1].cbs = T.cbs[w.p]
Agrees == IF Sane(Cur, TrieOf(TheSpecs[k])) THEN TRUE ELSE PrintT(<< "DISAGREE", TheSpecs[k] >>) /\ FALSE
\* what is listed for a text: the alternatives after its words which its last word may begin
Visible(T, p) == {i \in Kids(T, p) : Append(p, i) \notin T.hid}
\* after a whole word that is unique: that alone
Listed(T, t) ==
    LET ws == Words(t).toks  n == Len(ws)
        RECURSIVE Descend(_, _)
        Descend(p, i) == IF i = n THEN [p |-> p, ok |-> TRUE]
                   ELSE LET bs == Best(Visible(T, p), ws[i]) IN
                        IF Cardinality(bs) = 1 THEN Descend(Append(p, CHOOSE x \in bs : TRUE), i + 1) ELSE [p |-> p, ok |-> FALSE]
        d == Descend(<< >>, 1)
        may(i) == IF Atoms[i].k = "cmd" THEN Pre(ws[n], Atoms[i].name) ELSE ws[n] = << >> \/ ValueOf(Atoms[i].var, ws[n]).ok
    IN IF d.ok THEN {i \in Visible(T, d.p) : may(i)} ELSE {}
ShownAtom(i) == IF Atoms[i].k = "cmd" THEN Atoms[i].name ELSE << 60 >> \o Atoms[i].var.name \o << 62 >>
ListsRight ==
    Family \in {"expr", "words", "stmts", "hide", "refs"} =>
    LET S == Cur  T == TrieOf(TheSpecs[k]) IN
    \A x \in 1..Len(Typing) :
        LET h == HelpText(S, Typing[x])
            got == {h[i] : i \in 1..Len(h)} \ {CrText}
            want == {ShownAtom(i) : i \in Listed(T, Typing[x])}
            cmds == {Atoms[i].name : i \in {i \in Listed(T, Typing[x]) : Atoms[i].k = "cmd"}}
            w == Words(Typing[x]).toks
            comp == Completion(S, Typing[x])
            last == w[Len(w)]
        IN /\ IF got = want THEN TRUE ELSE PrintT(<< "LIST", TheSpecs[k], Typing[x], got, want >>) /\ FALSE
           \* completion: every keyword that fits still fits, and nothing more could be added
           /\ LET d == comp # << >> /\ comp[Len(comp)] = SP
                  t == last \o (IF d THEN SubSeq(comp, 1, Len(comp) - 1) ELSE comp) IN
              IF (\A m \in cmds : Pre(t, m)) /\ (d <=> Cardinality(cmds) = 1) /\ (d => t \in cmds)
                 /\ (cmds # {} /\ ~d => \E m, q \in cmds : m = t \/ (Len(m) > Len(t) /\ Len(q) > Len(t) /\ m[Len(t) + 1] # q[Len(t) + 1]))
                 /\ (cmds = {} => comp = << >>)
              THEN TRUE ELSE PrintT(<< "COMPLETION", TheSpecs[k], Typing[x], comp, cmds >>) /\ FALSE
\* hiding changes what is listed, never what is accepted or called
RECURSIVE Unhidden(_)
Unhidden(sts) == [i \in 1..Len(sts) |-> [sts[i] EXCEPT !.hide = FALSE, !.sub = Unhidden(@)]]
HideListsOnly ==
    Family = "hide" =>
    LET S == Cur  U == Ex1(<< [TheSpecs[k][1] EXCEPT !.stmts = Unhidden(@)] >>) IN
    \A i \in 1..Len(EvalLines) : LET o == LineOutcome(S, EvalLines[i], "t")  q == LineOutcome(U, EvalLines[i], "t") IN
        o.cls = q.cls /\ o.binds = q.binds /\ (o.cls = "ok" => o.ents[1].cbs = q.ents[1].cbs)
\* the order of statements changes nothing but the order of callbacks of commands they share
RECURSIVE Rev(_)
Rev(s) == IF s = << >> THEN << >> ELSE Append(Rev(Tail(s)), s[1])
OrderFree ==
    Family \in {"stmts", "hide", "prefs", "sets"} =>
    LET S == Cur
        l == TheSpecs[k][1].stmts
        U == Ex1(<< [TheSpecs[k][1] EXCEPT !.stmts = IF Family = "sets" THEN << [l[1] EXCEPT !.sub = Rev(@)] >> ELSE Rev(l)] >>) IN
    /\ \A i \in 1..Len(EvalLines) : LET o == LineOutcome(S, EvalLines[i], "t")  q == LineOutcome(U, EvalLines[i], "t") IN
        IF o.cls = q.cls /\ (o.cls # "multi" => o.binds = q.binds) THEN TRUE ELSE PrintT(<< "ORDER", TheSpecs[k], EvalLines[i], o, q >>) /\ FALSE
    /\ \A x \in 1..Len(Typing) : IF HelpText(S, Typing[x]) = HelpText(U, Typing[x]) THEN TRUE ELSE PrintT(<< "ORDER", TheSpecs[k], Typing[x], HelpText(S, Typing[x]), HelpText(U, Typing[x]) >>) /\ FALSE
\* elements of a set in any order
PermutesFree ==
    Family = "sets" =>
    LET S == Cur IN
    \A i \in 1..Len(EvalLines) :
        LET ws == Words(EvalLines[i]).toks IN
        (Len(ws) = 3 /\ \A s \in 1..Len(TheSpecs[k][1].stmts[1].sub) : TheSpecs[k][1].stmts[1].sub[s].e.k \in {"cmd", "var"}
                          /\ TheSpecs[k][1].stmts[1].sub[s].block = "none")
        => (LineOutcome(S, EvalLines[i], "t").cls = "ok") = (LineOutcome(S, JoinToks(<< ws[1], ws[3], ws[2] >>), "t").cls = "ok")

(*------------------------------- for the code ----------------------------------*)
Prefed(S, m) == [S EXCEPT !.cfg.pref = m]
Results(S) == [i \in 1..Len(EvalLines) |->
                 LET r == Execute(S, EvalLines[i], "t") IN
                 IF r.o.cls = "ok" THEN [c |-> "ok", v |-> Vals(r.o.binds), x |-> r.X.calls] ELSE [c |-> r.o.cls]]
Typings(S) == [x \in 1..Len(Typing) |-> LET r == ReadEval(S, Keys(Typing[x]), 1).k IN [l |-> r.line, s |-> r.shows]]
EmitSpec == LET S == Cur IN
        PrintT("BEH" \o ToJson([secs |-> TheSpecs[k], r |-> IF Part = "type" THEN << >> ELSE [m \in 1..Cardinality(Modes) |-> Results(Prefed(S, m - 1))],
                                t |-> IF Part = "eval" THEN << >> ELSE Typings(S)]))
ASSUME PrintT("LINES" \o ToJson([n |-> Len(TheSpecs), lines |-> EvalLines, typing |-> [x \in 1..Len(Typing) |-> Keys(Typing[x])]]))
==================================================================================
