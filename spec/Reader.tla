------------------------------- MODULE Reader -------------------------------
(* Reading a text and writing the program back, one character at a time.    *)
(* Characters are code points.  The reader keeps the line being read without*)
(* leading space (cur), and the spaces which may be trailing (pend).        *)
EXTENDS Integers, Sequences

NL == 10
(* (separators of lines other than NL are only spaces) *)
Space == {9, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202

Blank == [cur |-> <<>>, pend |-> <<>>, out |-> <<>>]

(* end of a line: a line which isn't blank is written, alone on its line *)
EndLine(r) == IF r.cur = <<>> THEN [r EXCEPT !.pend = <<>>]
              ELSE [cur |-> <<>>, pend |-> <<>>, out |-> Append(r.out, r.cur)]

Read(r, ch) ==
  IF ch = NL THEN EndLine(r)
  ELSE IF ch \in Space THEN IF r.cur = <<>> THEN r ELSE [r EXCEPT !.pend = Append(@, ch)]
  ELSE [r EXCEPT !.cur = @ \o r.pend \o <<ch>>, !.pend = <<>>]

(* The same a line at a time: the end of the line from k on, and what is    *)
(* left of s[a..b] without surrounding spaces.                              *)
RECURSIVE NextNL(_, _), SkipFront(_, _, _), SkipBack(_, _, _)
NextNL(s, k) == IF k > Len(s) THEN k ELSE IF s[k] = NL THEN k ELSE NextNL(s, k + 1)
SkipFront(s, a, b) == IF a > b THEN a ELSE IF s[a] \notin Space THEN a ELSE SkipFront(s, a + 1, b)
SkipBack(s, a, b) == IF a > b THEN b ELSE IF s[b] \notin Space THEN b ELSE SkipBack(s, a, b - 1)
Trim(s, a, b) == LET f == SkipFront(s, a, b) IN SubSeq(s, f, SkipBack(s, f, b))
RECURSIVE LinesFrom(_, _)
LinesFrom(s, k) == IF k > Len(s) THEN <<>>
                   ELSE LET e == NextNL(s, k)
                            l == Trim(s, k, e - 1) IN (IF l = <<>> THEN <<>> ELSE <<l>>) \o LinesFrom(s, e + 1)
=============================================================================
