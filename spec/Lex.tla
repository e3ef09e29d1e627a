-------------------------------- MODULE Lex ---------------------------------
(* The lexical structure of a g-code line, one character at a time.         *)
(* The result is the first G, M or T word, the values of the words of a G    *)
(* line, and of the first S and the first P word of any line.               *)
EXTENDS Num, TLC

Lower(ch) == IF ch \in 65..90 THEN ch + 32 ELSE ch
Digit(ch) == ch \in 48..57
Letter(ch) == ch \in 97..122           \* after Lower
SpaceC == {9, 32}
(* axes: x y z e f i j *)
AxisOf == (120 :> 1) @@ (121 :> 2) @@ (122 :> 3) @@ (101 :> 4) @@ (102 :> 5) @@ (105 :> 6) @@ (106 :> 7)
Axes == DOMAIN AxisOf
CommandLetters == {103, 109, 116}      \* g m t
NoVals == <<NA, NA, NA, NA, NA, NA, NA>>

(* mode: "text", "paren" (comment in parentheses), "rest" (after a semicolon), "sum" (checksum)
   w: letter of the word being read (0: none), its number: sg sign, hs has a sign, dot, nd digits, fr decimals, val digits so far *)
Fresh == [mode |-> "text", w |-> 0, sg |-> 1, hs |-> FALSE, dot |-> FALSE, nd |-> 0, fr |-> 0, val |-> 0, zero |-> FALSE,
          cl |-> 0, cn |-> 0,          \* command letter (0: none) and number
          num |-> FALSE,               \* a line number has been seen
          vals |-> NoVals, seen |-> <<FALSE, FALSE, FALSE>>, ink |-> FALSE,
          sp |-> <<NA, NA>>, sps |-> <<FALSE, FALSE>>,   \* the first S word and the first P word, and whether there was one
          bad |-> FALSE]               \* outside of the grammar

Pow == <<1, 10, 100, 1000, 10000, 100000>>
(* f s p have 3 decimals *)
Coarse == {102, 112, 115}
Decimals(w) == IF w \in Coarse THEN 3 ELSE 5

(* the word being read is complete *)
Close(r) ==
  LET n == [r EXCEPT !.w = 0, !.sg = 1, !.hs = FALSE, !.dot = FALSE, !.nd = 0, !.fr = 0, !.val = 0, !.zero = FALSE] IN
  IF r.w = 0 THEN r
  ELSE IF (r.hs \/ r.dot) /\ r.nd = 0 THEN [n EXCEPT !.bad = TRUE]
  ELSE IF r.cl = 0 THEN
    IF r.w = 110 THEN [n EXCEPT !.num = TRUE, !.bad = @ \/ r.num \/ r.nd = 0 \/ r.hs \/ r.dot]
    ELSE [n EXCEPT !.cl = r.w, !.cn = r.val,
                   !.bad = @ \/ r.w \notin CommandLetters \/ r.nd = 0 \/ r.hs \/ r.dot \/ (r.zero /\ r.nd > 1)]
  ELSE IF r.w \in {112, 115} THEN
    LET a == IF r.w = 115 THEN 1 ELSE 2 IN
    IF r.sps[a] THEN n
    ELSE [n EXCEPT !.sps[a] = TRUE,
                   !.sp[a] = IF r.nd = 0 THEN NA ELSE r.sg * r.val * Pow[3 - Min2(r.fr, 3) + 1]]
  ELSE IF r.w \notin Axes THEN n
  ELSE LET a == AxisOf[r.w]
           n2 == IF a <= 3 THEN [n EXCEPT !.seen[a] = TRUE] ELSE n IN
       IF r.nd = 0 THEN [n2 EXCEPT !.bad = @ \/ (r.cl = 103 /\ Has(r.vals[a]))]
       ELSE IF r.cl = 103 THEN [n2 EXCEPT !.vals[a] = r.sg * r.val * Pow[Decimals(r.w) - Min2(r.fr, Decimals(r.w)) + 1]]
       ELSE n2

InText(r, c) ==
  IF c = 59 THEN [Close(r) EXCEPT !.mode = "rest"]
  ELSE IF c = 40 THEN [Close(r) EXCEPT !.mode = "paren"]
  ELSE IF c = 42 THEN LET q == Close(r) IN [q EXCEPT !.mode = "sum", !.bad = @ \/ q.cl = 0]
  ELSE IF c \in SpaceC THEN Close(r)
  ELSE IF Letter(c) THEN [Close(r) EXCEPT !.w = c]
  ELSE IF r.w = 0 THEN [r EXCEPT !.bad = TRUE]
  ELSE IF Digit(c) THEN
    LET room == r.fr < Decimals(r.w) IN
    [r EXCEPT !.nd = @ + 1, !.zero = IF r.nd = 0 THEN c = 48 ELSE @,
              !.fr = IF r.dot THEN @ + 1 ELSE @,
              !.val = IF r.dot /\ ~room THEN @ ELSE IF @ > 20000000 THEN @ ELSE 10 * @ + (c - 48),
              !.bad = @ \/ (~r.dot /\ r.val >= 1000 /\ r.w \notin Coarse) \/ r.val > 20000000 \/ (~r.dot /\ r.val >= 10000)]
  ELSE IF c \in {43, 45} THEN
    [r EXCEPT !.sg = IF c = 45 THEN -1 ELSE 1, !.hs = TRUE, !.bad = @ \/ r.hs \/ r.dot \/ r.nd > 0]
  ELSE IF c = 46 THEN [r EXCEPT !.dot = TRUE, !.bad = @ \/ r.dot]
  ELSE [r EXCEPT !.bad = TRUE]

Lexed(r0, ch) ==
  LET c == Lower(ch)
      r == IF c \in SpaceC THEN r0 ELSE [r0 EXCEPT !.ink = TRUE] IN
  CASE r.mode = "rest"  -> r
    [] r.mode = "paren" -> IF c = 41 THEN [r EXCEPT !.mode = "text"] ELSE [r EXCEPT !.bad = @ \/ c = 40]
    [] r.mode = "sum"   -> IF Digit(c) \/ c \in SpaceC THEN r
                           ELSE IF c = 59 THEN [r EXCEPT !.mode = "rest"] ELSE [r EXCEPT !.bad = TRUE]
    [] OTHER            -> InText(r, c)

(* end of the line *)
Done(r) == LET q == Close(r) IN [q EXCEPT !.bad = @ \/ r.mode = "paren" \/ ~r.ink \/ (q.num /\ q.cl = 0)]

RECURSIVE LexAll(_, _, _)
LexAll(r, s, k) == IF k > Len(s) THEN r ELSE LexAll(Lexed(r, s[k]), s, k + 1)
=============================================================================
