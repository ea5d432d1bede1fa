-------------------------------- MODULE Editor --------------------------------
(* The line editor: what every key does to the line, the cursor, the kill      *)
(* buffer and the place in the history; and what the terminal shows.           *)
EXTENDS Cli

(* H = [max, lines, at]: the most recent lines, oldest first; at is the place:  *)
(* 0 before the oldest, 1..n a line, n+1 the empty line after the newest        *)
Hist0(max) == [max |-> max, lines |-> << >>, at |-> 1]
HistEnd(H) == [H EXCEPT !.at = Len(H.lines) + 1]
HistAdd(H, line) ==
    LET n == Len(H.lines) IN
    IF Squeeze(line) = << >> \/ (n > 0 /\ H.lines[n] = line) THEN HistEnd(H)
    ELSE HistEnd([H EXCEPT !.lines = IF n < H.max THEN Append(@, line) ELSE Append(Tail(@), line)])
HistLine(H) == IF H.at \in 1..Len(H.lines) THEN H.lines[H.at] ELSE << >>
\* one step back: [H, line]; a full history stays at its oldest line, showing nothing
HistPrev(H) ==
    IF H.at = 0 \/ (H.at = 1 /\ Len(H.lines) = H.max) THEN [H |-> H, line |-> << >>]
    ELSE LET G == [H EXCEPT !.at = @ - 1] IN [H |-> G, line |-> HistLine(G)]
HistNext(H) ==
    IF H.at > Len(H.lines) THEN [H |-> H, line |-> << >>]
    ELSE LET G == [H EXCEPT !.at = @ + 1] IN [H |-> G, line |-> HistLine(G)]
RECURSIVE HistAddAll(_, _)
HistAddAll(H, ls) == IF ls = << >> THEN H ELSE HistAddAll(HistAdd(H, ls[1]), Tail(ls))
\* text of a saved history; lines of a file (what follows the last newline is no line)
RECURSIVE HistText(_)
HistText(ls) == IF ls = << >> THEN << >> ELSE ls[1] \o << NL >> \o HistText(Tail(ls))
FileLines(t) == LET p == Split(t, NL) IN SubSeq(p, 1, Len(p) - 1)

(* E: l, r text left and right of the cursor; esc: the next key is literal;     *)
(* seq: where in a key sequence; kill, over: kill buffer, overwrite mode;       *)
(* srch: incremental search; h: history; st: "edit", or how reading ended.      *)
NoSearch == [on |-> FALSE, str |-> << >>, fwd |-> FALSE, last |-> 0]
Ed0 == [l |-> << >>, r |-> << >>, esc |-> FALSE, seq |-> "", skip |-> 0, held |-> << >>, kill |-> << >>, over |-> FALSE,
        srch |-> NoSearch, h |-> Hist0(100), shows |-> << >>, st |-> "edit", line |-> << >>, used |-> 0]
NewLine(E) == [E EXCEPT !.l = << >>, !.r = << >>, !.esc = FALSE, !.seq = "", !.skip = 0, !.held = << >>, !.srch = NoSearch, !.st = "edit"]
Fresh(E) == [NewLine(E) EXCEPT !.shows = << >>, !.line = << >>, !.used = 0]

Space(c) == c = SP \/ (c >= 9 /\ c <= 13)
Ins(E, c) == [E EXCEPT !.l = Append(@, c), !.r = IF E.over /\ @ # << >> THEN Tail(@) ELSE @]
RECURSIVE InsAll(_, _)
InsAll(E, cs) == IF cs = << >> THEN E ELSE InsAll(Ins(E, cs[1]), Tail(cs))
Line(E, s) == [E EXCEPT !.l = s, !.r = << >>]
\* the cursor moved to place k (0 before the first character)
To(E, k) == LET s == E.l \o E.r IN [E EXCEPT !.l = SubSeq(s, 1, k), !.r = From(s, k + 1)]
\* start of the word to the left of place k: back over blanks, then over the word
RECURSIVE Back(_, _, _)
Back(s, k, sp) == IF k > 0 /\ Space(s[k]) = sp THEN Back(s, k - 1, sp) ELSE k
WordLeft(s, k) == Back(s, Back(s, k, TRUE), FALSE)
RECURSIVE Over(_, _, _)
Over(s, k, sp) == IF k < Len(s) /\ Space(s[k + 1]) = sp THEN Over(s, k + 1, sp) ELSE k
WordRight(s, k) == Over(s, Over(s, k, FALSE), TRUE)
Yank(E) == [E EXCEPT !.l = @ \o E.kill,
                     !.r = IF E.over THEN (IF Len(E.kill) >= Len(@) THEN << >> ELSE From(@, Len(E.kill) + 1)) ELSE @]
Older(E) == LET p == HistPrev(E.h) IN Line([E EXCEPT !.h = p.H], p.line)
Newer(E) == LET p == HistNext(E.h) IN Line([E EXCEPT !.h = p.H], p.line)

(* Searching: the line shown is the one found, the cursor at the first         *)
(* occurrence; an empty line when there is none.                               *)
Occurs(s, p) == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p}
FirstAt(s, p) == (CHOOSE i \in Occurs(s, p) : \A j \in Occurs(s, p) : i <= j) - 1
RECURSIVE Seek(_, _)
Seek(E, fresh) ==
    LET q == IF E.srch.fwd THEN HistNext(E.h) ELSE HistPrev(E.h)
        F == [E EXCEPT !.h = q.H]
    IN IF q.line = << >> THEN Line(F, << >>)
       ELSE IF Occurs(q.line, E.srch.str) # {}
       THEN To([Line(F, q.line) EXCEPT !.srch.last = IF fresh THEN q.H.at ELSE @], FirstAt(q.line, E.srch.str))
       ELSE Seek(F, fresh)
Here(E) ==      \* the current line if it holds the text, else further
    LET s == E.l \o E.r IN
    IF Occurs(s, E.srch.str) # {} THEN To(E, FirstAt(s, E.srch.str))
    ELSE IF E.srch.str # << >> THEN Seek(E, FALSE) ELSE To(E, 0)
SearchAdd(E, c) == Here([E EXCEPT !.srch.str = IF Len(@) < 99 THEN Append(@, c) ELSE @])
SearchDel(E) ==
    LET n == Len(E.srch.str)
        F == [E EXCEPT !.srch.str = IF n = 0 THEN @ ELSE SubSeq(@, 1, n - 1)]
        G == IF F.srch.str # << >> THEN [F EXCEPT !.h.at = F.srch.last] ELSE [F EXCEPT !.h = HistEnd(@)]
    IN Here(Line(G, HistLine(G.h)))
Search(E, fwd) ==
    IF ~E.srch.on
    THEN LET H == HistEnd(E.h) IN
         Line([E EXCEPT !.srch = [on |-> TRUE, str |-> << >>, fwd |-> fwd, last |-> H.at], !.h = H], << >>)
    ELSE LET F == [E EXCEPT !.srch.fwd = fwd] IN IF F.srch.str = << >> THEN F ELSE Seek(F, TRUE)
SearchEnd(E) == [E EXCEPT !.srch.on = FALSE, !.h = IF E.l \o E.r = << >> THEN HistEnd(@) ELSE @]

--------------------------------------------------------------------------------
RECURSIVE Steps(_, _)
Steps(S, l) == LET a == Completion(S, l) IN
               IF a = << >> \/ (S.cfg.tabmode \div 4) % 2 = 0 THEN l \o a ELSE Steps(S, l \o a)
HelpKey(S, E) == [E EXCEPT !.shows = Append(@, [k |-> "?", rows |-> HelpText(S, E.l \o E.r)])]
TabKey(S, E) ==
    LET l == Steps(S, E.l)
        lst == IF (S.cfg.tabmode % 2) = 1 THEN HelpText(S, l \o E.r) ELSE TabList(S, l \o E.r)
    IN [E EXCEPT !.l = l, !.shows = Append(@, [k |-> "t", rows |-> lst])]
Enter(S, E) ==
    LET line == Trim(E.l \o E.r, S.cfg.comment) IN
    IF line = << >> THEN NewLine(E)
    ELSE [E EXCEPT !.st = "line", !.line = line, !.h = HistAdd(@, line)]
Ended(E) == [E EXCEPT !.st = "eof"]
\* a key that is no printable character, outside searching
Control(S, E, c) ==
    LET n == Len(E.l) s == E.l \o E.r IN
    IF Contains(S.cfg.exitchars, c) THEN Ended(E)
    ELSE
    CASE c = 10 \/ c = 13 -> Enter(S, E)
      [] c = 1 -> To(E, 0)
      [] c = 2 -> IF n = 0 THEN E ELSE To(E, n - 1)
      [] c = 4 -> IF s = << >> THEN Ended(E) ELSE IF E.r = << >> THEN E ELSE [E EXCEPT !.r = Tail(@)]
      [] c = 5 -> To(E, Len(s))
      [] c = 6 -> IF E.r = << >> THEN E ELSE To(E, n + 1)
      [] c = 8 \/ c = 127 -> IF n = 0 THEN E ELSE [E EXCEPT !.l = SubSeq(@, 1, n - 1)]
      [] c = 9 -> TabKey(S, E)
      [] c = 11 -> IF E.r = << >> THEN E ELSE [E EXCEPT !.kill = E.r, !.r = << >>]
      [] c = 14 -> Newer(E)
      [] c = 15 -> [E EXCEPT !.over = ~@]
      [] c = 16 -> Older(E)
      [] c = 18 -> Search(E, FALSE)
      [] c = 19 -> Search(E, TRUE)
      [] c = 20 -> IF E.l = << >> \/ E.r = << >> THEN E
                   ELSE [E EXCEPT !.l = SubSeq(@, 1, n - 1) \o << E.r[1] >>, !.r = << E.l[n] >> \o Tail(@)]
      [] c = 21 -> IF n = 0 THEN E ELSE [E EXCEPT !.kill = E.l, !.l = << >>]
      [] c = 23 -> IF n = 0 THEN E
                   ELSE LET k == WordLeft(s, n) IN [E EXCEPT !.kill = SubSeq(E.l, k + 1, n), !.l = SubSeq(@, 1, k)]
      [] c = 25 -> Yank(E)
      [] c = 27 -> [E EXCEPT !.seq = "esc"]
      [] c >= 240 /\ c < 248 -> [E EXCEPT !.skip = 3, !.held = << c >>]
      [] c >= 224 /\ c < 240 -> [E EXCEPT !.skip = 2, !.held = << c >>]
      [] c >= 192 /\ c < 224 -> [E EXCEPT !.skip = 1, !.held = << c >>]
      [] OTHER -> E
\* inside an escape sequence
Sequence(S, E, c) ==
    LET n == Len(E.l) s == E.l \o E.r F == [E EXCEPT !.seq = ""] IN
    IF E.seq = "esc"
    THEN CASE c \in {91, 79} -> [E EXCEPT !.seq = "csi"]
           [] c \in {102, 70} -> To(F, WordRight(s, n))
           [] c \in {98, 66} -> To(F, WordLeft(s, n))
           [] OTHER -> F
    ELSE IF E.seq = "csi"
    THEN CASE c = 65 -> Older(F)
           [] c = 66 -> Newer(F)
           [] c = 67 -> IF E.r = << >> THEN F ELSE To(F, n + 1)
           [] c = 68 -> IF n = 0 THEN F ELSE To(F, n - 1)
           [] c = 72 -> To(F, 0)
           [] c = 70 -> To(F, Len(s))
           [] c = 51 -> [E EXCEPT !.seq = "del"]
           [] OTHER -> F
    ELSE IF c = 126 /\ E.r # << >> THEN [F EXCEPT !.r = Tail(@)] ELSE F
Key(S, E0, c) ==
    LET E == [E0 EXCEPT !.used = @ + 1] IN
    IF E.skip > 0
    THEN LET F == [E EXCEPT !.skip = @ - 1, !.held = Append(@, c)] IN
         IF F.skip > 0 THEN F ELSE [(IF S.cfg.utf8 THEN InsAll(F, F.held) ELSE F) EXCEPT !.held = << >>]
    ELSE IF E.seq # "" THEN Sequence(S, E, c)
    ELSE IF (c >= 32 /\ c < 127) \/ (E.esc /\ c = NL)
    THEN IF ~E.esc /\ c = BS THEN [E EXCEPT !.esc = TRUE]
         ELSE IF ~E.esc /\ c = 63 THEN HelpKey(S, E)
         ELSE IF E.srch.on THEN SearchAdd([E EXCEPT !.esc = FALSE], c)
         ELSE Ins([E EXCEPT !.esc = FALSE], c)
    ELSE LET F == [E EXCEPT !.esc = FALSE] IN
         IF ~F.srch.on THEN Control(S, F, c)
         ELSE IF c \in {14, 16} THEN SearchEnd(F)
         ELSE IF c \in {8, 127} THEN SearchDel(F)
         ELSE IF c \in {18, 19} THEN Control(S, F, c)
         ELSE Control(S, SearchEnd(F), c)
\* keys up to the end of the line, or of the input
RECURSIVE Typed(_, _, _, _)
Typed(S, E, keys, i) ==
    IF E.st # "edit" THEN E
    ELSE IF i > Len(keys) THEN Ended(E)
    ELSE Typed(S, Key(S, E, keys[i]), keys, i + 1)

--------------------------------------------------------------------------------
(*                              The terminal                                   *)
(* T = [w, rows, r, c]: width, rows of cells, cursor (from 0); c = w: the last  *)
(* column was written and the cursor has not moved on.                         *)
BlankRow(w) == [i \in 1..w |-> SP]
T0(w) == [w |-> w, rows |-> << BlankRow(w) >>, r |-> 0, c |-> 0, esc |-> << >>]
Down(T) == [T EXCEPT !.r = @ + 1, !.rows = IF T.r + 2 > Len(@) THEN Append(@, BlankRow(T.w)) ELSE @]
Put(T, ch) ==
    LET U == IF T.c = T.w THEN [Down(T) EXCEPT !.c = 0] ELSE T IN
    [U EXCEPT !.rows[U.r + 1][U.c + 1] = ch, !.c = @ + 1]
Num(ds) == IF ds = << >> THEN 1 ELSE IF Len(ds) = 1 THEN ds[1] - 48 ELSE IF Len(ds) = 2 THEN (ds[1] - 48) * 10 + ds[2] - 48
           ELSE (ds[1] - 48) * 100 + (ds[2] - 48) * 10 + ds[3] - 48
EscDone(T, ds, ch) ==
    LET U == [T EXCEPT !.esc = << >>] col == IF T.c = T.w THEN T.w - 1 ELSE T.c IN
    CASE ch = 65 -> [U EXCEPT !.r = IF @ >= Num(ds) THEN @ - Num(ds) ELSE 0, !.c = col]
      [] ch = 67 -> [U EXCEPT !.c = IF col + Num(ds) < T.w THEN col + Num(ds) ELSE T.w - 1]
      [] ch = 74 -> [U EXCEPT !.rows = [i \in 1..Len(@) |-> BlankRow(T.w)]]
      [] ch = 72 -> [U EXCEPT !.r = 0, !.c = 0]
      [] OTHER -> U
Emit(T, ch) ==
    IF T.esc # << >>
    THEN IF Len(T.esc) = 1 THEN [T EXCEPT !.esc = IF ch = 91 THEN Append(@, ch) ELSE << >>]
         ELSE IF Digit(ch) THEN [T EXCEPT !.esc = Append(@, ch)]
         ELSE EscDone(T, From(T.esc, 3), ch)
    ELSE CASE ch = 13 -> [T EXCEPT !.c = 0]
           [] ch = 10 -> Down(T)
           [] ch = 8 -> [T EXCEPT !.c = IF @ = T.w THEN T.w - 2 ELSE IF @ = 0 THEN 0 ELSE @ - 1]
           [] ch = 27 -> [T EXCEPT !.esc = << 27 >>]
           [] ch = 7 -> T
           [] OTHER -> Put(T, ch)
RECURSIVE EmitAll(_, _, _, _)
EmitAll(T, s, i, j) == IF i > j THEN T ELSE EmitAll(Emit(T, s[i]), s, i + 1, j)

(* What must be seen: the prompt (the search text while searching), then the   *)
(* line, the cursor in place.                                                  *)
PromptOf(S, E) == IF E.srch.on THEN E.srch.str \o << 63, 32 >> ELSE S.cfg.prompt
Row(T, i) == IF i + 1 <= Len(T.rows) THEN T.rows[i + 1] ELSE BlankRow(T.w)
RECURSIVE Flat(_, _, _)
Flat(T, i, j) == IF i > j THEN << >> ELSE Row(T, i) \o Flat(T, i + 1, j)
Padded(s, n) == s \o [i \in 1..(n - Len(s)) |-> SP]
\* wrapped over rows from row top on: nothing else in these rows and below
SeenWrapped(T, p, E, top) ==
    LET all == p \o E.l \o E.r
        at == Len(p) + Len(E.l)
        n == (Len(all) \div T.w) + 1
        m == IF Len(T.rows) - top > n THEN Len(T.rows) - top ELSE n
    IN /\ T.r = top + (at \div T.w) /\ T.c = at % T.w
       /\ Flat(T, top, top + m - 1) = Padded(all, m * T.w)
\* a window of the line in one row: it starts after `off` characters; a dollar sign stands for a hidden part
Window(w, p, s, off) ==
    LET room == w - Len(p) rest == Len(s) - off
        cut == rest > room - 1
        txt == SubSeq(s, off + 1, off + (IF cut THEN room - 2 ELSE rest)) \o (IF cut THEN << 36 >> ELSE << >>)
    IN Padded(p \o (IF off > 0 THEN << 36 >> \o (IF txt = << >> THEN << >> ELSE Tail(txt)) ELSE txt), w)
SeenScrolled(T, p, E) ==
    LET off == Len(E.l) - (T.c - Len(p)) IN
    /\ off >= 0 /\ T.c < T.w
    /\ off = 0 \/ T.c > Len(p) \/ E.l = << >>
    /\ Row(T, T.r) = Window(T.w, p, E.l \o E.r, off)
================================================================================
