------------------------------ MODULE MCChain -------------------------------
(* All short histories of edits and filters of a program object, which      *)
(* keeps what it derives from its text (the layers and the position of each *)
(* line) as an implementation does: an edit leaves what it derived as it    *)
(* was, the inserted lines having no position; a filter decides from the    *)
(* positions it finds, and keeps a state which a new program resets.        *)
(* Lines: 3 starts a layer, 1 and 2 move by as much.                        *)
(* Design: when the program is read again (both: before and after).         *)
EXTENDS Chain, TLC, Json
CONSTANTS N, Design, Fresh, Emit
VARIABLES start, hist, y, pos, held, before, ok
vars == <<start, hist, y, pos, held, before, ok>>

Starts == << <<>>, <<1, 3, 2>>, <<3, 1, 3, 1, 2>> >>

RECURSIVE Split(_, _, _)
Split(text, done, cur) ==
  IF text = <<>> THEN Append(done, cur)
  ELSE IF Head(text) = 3 THEN Split(Tail(text), Append(done, cur), <<3>>)
  ELSE Split(Tail(text), done, Append(cur, Head(text)))
Layered(text) == Split(text, <<>>, <<>>)
RECURSIVE Sum(_)
Sum(text) == IF text = <<>> THEN 0 ELSE Head(text) + Sum(Tail(text))
Position(text) == [k \in 1..Len(text) |-> Sum(SubSeq(text, 1, k))]

(* the filters: "odd" removes moves ending at an odd position, "twice"      *)
(* writes moves again, "late" holds a move until the next line or the end   *)
RECURSIVE Late(_, _)
Late(text, h) == IF text = <<>> THEN h
                 ELSE IF Head(text) = 3 THEN h \o <<3>> \o Late(Tail(text), <<>>)
                 ELSE h \o Late(Tail(text), <<Head(text)>>)
Apply2(f, text, p, h) ==
  CASE f = "odd"   -> FlattenSeq([k \in 1..Len(text) |-> IF text[k] # 3 /\ p[k] % 2 = 1 THEN <<>> ELSE <<text[k]>>])
    [] f = "twice" -> FlattenSeq([k \in 1..Len(text) |-> IF text[k] = 3 THEN <<3>> ELSE <<text[k], text[k]>>])
    [] f = "late"  -> Late(text, h)

Init == /\ start \in 1..Len(Starts) /\ hist = <<>> /\ ok = TRUE /\ held = <<>>
        /\ y = Layered(Starts[start]) /\ pos = Position(Starts[start]) /\ before = Starts[start]

First(k) == Len(FlattenSeq(SubSeq(y, 1, k - 1))) + 1
Cut(s, from, n, mid) == SubSeq(s, 1, from - 1) \o mid \o SubSeq(s, from + n, Len(s))
Unknown(c) == [i \in 1..Len(c) |-> -1]
Contents == {<<1>>, <<3, 2>>}
Edits == {[op |-> "append", k |-> 0, c |-> <<1>>]} \cup
         {[op |-> w, k |-> k, c |-> c]: w \in {"prepend", "rewrite"}, k \in 1..Len(y), c \in Contents}
Log(o) == /\ hist' = Append(hist, o) /\ start' = start
          /\ (Emit /\ Len(hist') = N => PrintT("P" \o ToJson(<<start, hist'>>)))
Edit1 == \E o \in Edits:
  /\ Len(hist) < N /\ Enabled(y, o) /\ Log(o)
  /\ y' = Apply(y, o)
  /\ pos' = CASE o.op = "append" -> Append(pos, (IF pos = <<>> THEN 0 ELSE pos[Len(pos)]) + 1)
              [] o.op = "prepend" -> Cut(pos, First(o.k), 0, Unknown(o.c))
              [] OTHER -> Cut(pos, First(o.k), Len(y[o.k]), Unknown(o.c))
  /\ UNCHANGED <<held, before, ok>>

Filter == \E f \in {"odd", "twice", "late"}:
  /\ Len(hist) < N /\ Log([op |-> f, k |-> 0, c |-> <<>>])
  /\ LET text == Lines(y)
         p == IF Design \in {"both", "before"} THEN Position(text) ELSE pos
         out == Apply2(f, text, p, IF Fresh THEN <<>> ELSE held)
         want == Apply2(f, text, Position(text), <<>>) IN
     /\ before' = text
     /\ ok' = (out = want)
     /\ held' = IF f = "late" /\ text # <<>> /\ text[Len(text)] # 3 THEN <<text[Len(text)]>> ELSE held   \* what the filter was left with
     /\ IF Design \in {"both", "after"} THEN y' = Layered(out) /\ pos' = Position(out)
        ELSE /\ y' = <<out>>
             /\ pos' = Unknown(out)
Next == Edit1 \/ Filter
Spec == Init /\ [][Next]_vars

(* a filter gives what it would give for the text read again *)
AsText == ok
(* a filtered program is what its text reads as *)
AsWritten == hist # <<>> /\ hist[Len(hist)].op \in {"odd", "twice", "late"} => y = Layered(Lines(y)) /\ pos = Position(Lines(y))
=============================================================================
