--------------------------------- MODULE MCPage ---------------------------------
(* All outputs of up to Depth texts on a terminal of each height, with every    *)
(* choice of the first keys. Pages are also described from what arrived alone.  *)
EXTENDS Page, Json
CONSTANTS Depth, Heights, Choices
VARIABLES P, hist, texts, seen
A(n) == [i \in 1..n |-> 64 + (i % 26)]
Texts == {<< >>, << 10 >>, A(3), A(3) \o << 10 >>, A(20), A(21), A(21) \o << 10 >>, A(22), A(43) \o << 10 >>,
          << 97, 10, 98, 10 >>, << 97, 10, 10 >> \o A(22)}
Ops == {[op |-> o, s |-> s] : o \in {"out"}, s \in Texts} \cup {[op |-> "reset"]}
Spaces == [i \in 1..24 |-> 32]
KeySeqs == [1..Choices -> {10, 32, 113, 63}]
Init == \E H \in Heights : \E ks \in KeySeqs :
        LET e1 == [op |-> "resize", h |-> H, w |-> 21]
            S1 == PageStep(PageInit, e1)
            e2 == [op |-> "keys", s |-> ks \o Spaces]
            S2 == PageStep(State(S1), e2) IN
        /\ P = State(S2) /\ hist = << [e |-> e1, x |-> PageObs(S1)], [e |-> e2, x |-> PageObs(S2)] >>
        /\ texts = << >> /\ seen = << >>
Do(e) == LET T == PageStep(P, e) IN
         /\ P' = State(T)
         /\ hist' = Append(hist, [e |-> e, x |-> PageObs(T)])
         /\ IF e.op = "reset" THEN texts' = << >> /\ seen' = << >>
            ELSE texts' = texts \o e.s /\ seen' = seen \o T.out
Next == Len(hist) < Depth + 2 /\ \E e \in Ops : Do(e)
Spec == Init /\ [][Next]_<< P, hist, texts, seen >>

\* what arrived, cut at the prompts: the pages, as texts
AtPrompt(s, i) == i + 7 <= Len(s) /\ SubSeq(s, i, i + 7) = More
RECURSIVE Pages(_, _, _, _)
Pages(s, i, cur, ps) ==
    IF i > Len(s) THEN Append(ps, cur)
    ELSE IF ~AtPrompt(s, i) THEN Pages(s, i + 1, Append(cur, s[i]), ps)
    ELSE LET j == i + 8  h == j + Len(HelpText) - 1
             k == IF h <= Len(s) /\ SubSeq(s, j, h) = HelpText THEN h + 1 ELSE j IN
         Pages(s, k + 24, << >>, Append(ps, cur))
TheSeen == Pages(seen, 1, << >>, << >>)
RECURSIVE Cat(_)
Cat(ps) == IF ps = << >> THEN << >> ELSE ps[1] \o Cat(Tail(ps))
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* every line once, in order; all of them unless the user quit
Complete == IF P.rows < 0 THEN Prefix(Cat(TheSeen), texts) ELSE Cat(TheSeen) = texts
\* no page is longer than the terminal without its prompt: a row ends at a newline or when 21 columns are taken by more text
RECURSIVE Rows(_, _, _, _)
Rows(t, i, col, n) == IF i > Len(t) THEN n
                      ELSE IF t[i] = 10 THEN Rows(t, i + 1, 0, n + 1)
                      ELSE IF col = 21 THEN Rows(t, i + 1, 1, n + 1) ELSE Rows(t, i + 1, col + 1, n)
PageFits == P.H > 0 => \A k \in 1..Len(TheSeen) : Rows(TheSeen[k], 1, 0, 0) <= P.H - 1
\* nothing arrives after quitting
Quiet == [][(P.rows < 0 /\ P'.rows < 0) => hist'[Len(hist')].x.out = << >>]_<< P, hist >>
Used == hist[2].x.left - Len(P.keys)
\* keys never asked for are blanks: one behaviour each
Canonical == \A i \in 1..Choices : i > Used => hist[2].e.s[i] = 32
Emit == Len(hist) < Depth + 2 \/ ~Canonical \/ PrintT("BEH" \o ToJson(hist))
=================================================================================
