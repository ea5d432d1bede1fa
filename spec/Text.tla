-------------------------------- MODULE Text --------------------------------
(* Text as sequences of character codes, and the splitting of a line into      *)
(* words.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

TAB == 9   NL == 10   SP == 32   DQ == 34   BS == 92

Lower1(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper1(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Lower(s)  == [i \in 1..Len(s) |-> Lower1(s[i])]
Upper(s)  == [i \in 1..Len(s) |-> Upper1(s[i])]
Blank(c)  == c = SP \/ c = TAB
Digit(c)  == c >= 48 /\ c <= 57
HexDigit(c) == Digit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF Digit(c) THEN c - 48 ELSE Lower1(c) - 87
Fold(s, ci) == IF ci THEN Lower(s) ELSE s
Pre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
From(s, i) == SubSeq(s, i, Len(s))          \* the part of s from position i
Has(s, c)  == \E i \in 1..Len(s) : s[i] = c
\* first position >= i holding c, or Len(s)+1
Find(s, c, i) == LET m == {j \in i..Len(s) : s[j] = c} IN
                 IF m = {} THEN Len(s) + 1 ELSE CHOOSE j \in m : \A k \in m : j <= k
RECURSIVE Split(_, _)
Split(s, c) == LET i == Find(s, c, 1) IN
               IF i > Len(s) THEN << s >> ELSE << SubSeq(s, 1, i - 1) >> \o Split(From(s, i + 1), c)
RECURSIVE SkipBlanks(_, _)
SkipBlanks(s, i) == IF i <= Len(s) /\ Blank(s[i]) THEN SkipBlanks(s, i + 1) ELSE i
LTrim(s) == From(s, SkipBlanks(s, 1))
RECURSIVE RTrim(_)
RTrim(s) == IF s # << >> /\ (Blank(s[Len(s)]) \/ s[Len(s)] = NL)
            THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE CollapseFrom(_, _, _)
\* runs of blanks as one blank; wasblank: the character before i is a blank
CollapseFrom(s, i, wasblank) ==
    IF i > Len(s) THEN << >>
    ELSE IF Blank(s[i])
         THEN (IF wasblank THEN << >> ELSE << SP >>) \o CollapseFrom(s, i + 1, TRUE)
         ELSE << s[i] >> \o CollapseFrom(s, i + 1, FALSE)
Squeeze(s) == RTrim(LTrim(CollapseFrom(s, 1, FALSE)))
\* order of characters (as unsigned bytes): -1, 0, 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) /\ i > Len(b) THEN 0
    ELSE IF i > Len(a) THEN -1
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == IF a = b THEN 0 ELSE CmpFrom(a, b, 1)
\* length of the longest common prefix
RECURSIVE LcpFrom(_, _, _)
LcpFrom(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i - 1 ELSE LcpFrom(a, b, i + 1)
Lcp(a, b) == LcpFrom(a, b, 1)
RECURSIVE Unescape(_, _)
\* backslashes removed, the character after one kept as it is
Unescape(s, i) ==
    IF i > Len(s) THEN << >>
    ELSE IF s[i] # BS THEN << s[i] >> \o Unescape(s, i + 1)
    ELSE IF i = Len(s) THEN << >>
    ELSE << s[i + 1] >> \o Unescape(s, i + 2)

--------------------------------------------------------------------------------
(* A line given for execution: surrounding blanks go, a run of blanks counts   *)
(* as one, the comment character at the start or after a blank ends the line   *)
RECURSIVE CutComment(_, _, _, _)
CutComment(s, i, wasblank, comment) ==
    IF i > Len(s) THEN s
    ELSE IF comment # 0 /\ s[i] = comment /\ (wasblank \/ i = 1) THEN SubSeq(s, 1, i - 1)
    ELSE CutComment(s, i + 1, Blank(s[i]), comment)
Trim(s, comment) == Squeeze(CutComment(s, 1, FALSE, comment))

(* Words of a line: [toks, rests], rests[i] being the line from word i on.     *)
(* A line ending in blanks has a last, empty word.                             *)
RECURSIVE EndOfWord(_, _, _)
EndOfWord(s, i, esc) ==
    IF i > Len(s) THEN i
    ELSE IF esc THEN EndOfWord(s, i + 1, FALSE)
    ELSE IF s[i] = BS THEN EndOfWord(s, i + 1, TRUE)
    ELSE IF Blank(s[i]) THEN i
    ELSE EndOfWord(s, i + 1, FALSE)
RECURSIVE WordsFrom(_, _, _)
WordsFrom(s, i, n) ==                 \* n words found before position i
    LET j == SkipBlanks(s, i)  rest == From(s, j) IN
    IF j > Len(s)
    THEN IF j > i \/ n = 0 THEN [toks |-> << << >> >>, rests |-> << << >> >>]
                           ELSE [toks |-> << >>, rests |-> << >>]
    ELSE LET q == Find(s, DQ, j + 1)
             quoted == s[j] = DQ /\ q <= Len(s)
             e == IF quoted THEN q + 1
                  ELSE IF s[j] = DQ THEN Len(s) + 1 ELSE EndOfWord(s, j, FALSE)
             tok == IF quoted THEN SubSeq(s, j + 1, q - 1) ELSE SubSeq(s, j, e - 1)
             tail == WordsFrom(s, e, n + 1)
         IN [toks |-> << tok >> \o tail.toks, rests |-> << rest >> \o tail.rests]
Words(s) == WordsFrom(s, 1, 0)
================================================================================
