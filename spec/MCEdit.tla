------------------------------- MODULE MCEdit -------------------------------
(* All histories of N operations, with lists of lines and indexes kept      *)
(* incrementally, as an implementation does.                                *)
EXTENDS Edit, TLC, Json
CONSTANTS N, Starts, News
VARIABLES start, hist, layers, lines, index
vars == <<start, hist, layers, lines, index>>

Programs == << <<(<<>>)>>, << <<1>>, <<2, 3>>, <<>> >>, << <<>>, <<1>>, <<2>>, <<3, 4>>, <<>> >> >>

Init == /\ start \in 1..Starts
        /\ layers = Programs[start] /\ lines = Lines(layers) /\ index = Index(layers) /\ hist = <<>>

First(k) == Len(FlattenSeq(SubSeq(layers, 1, k - 1))) + 1         \* place of the first line of layer k
Cut(s, from, n, mid) == SubSeq(s, 1, from - 1) \o mid \o SubSeq(s, from + n, Len(s))
Number(k, n) == [i \in 1..n |-> <<k - 1, i - 1>>]

Fresh == 10 * (Len(hist) + 1)
Contents == {[i \in 1..n |-> Fresh + i]: n \in 0..News}
Ops == {[op |-> "append", k |-> 0, c |-> c]: c \in {x \in Contents: Len(x) <= 1}}
       \cup {[op |-> "feed", k |-> 0, c |-> <<Fresh + 1>>]}
       \cup {[op |-> w, k |-> k, c |-> c]: w \in {"prepend", "rewrite"}, k \in 1..Len(layers), c \in Contents}

Do(o) ==
  /\ Len(hist) < N /\ Enabled(layers, o)
  /\ hist' = Append(hist, o) /\ start' = start
  /\ layers' = Apply(layers, o)
  /\ LET n == Len(o.c) IN
     CASE o.op = "append" -> /\ lines' = lines \o o.c
                             /\ index' = index \o [i \in 1..n |-> <<Len(layers) - 1, Len(layers[Len(layers)])>>]
       [] o.op = "prepend" -> LET f == First(o.k) m == Len(layers[o.k]) IN
                             /\ lines' = Cut(lines, f, 0, o.c)
                             /\ index' = Cut(index, f + m, 0, [i \in 1..n |-> <<o.k - 1, m + i - 1>>])
       [] o.op = "rewrite" -> LET f == First(o.k) m == Len(layers[o.k]) IN
                             /\ lines' = Cut(lines, f, m, o.c)
                             /\ index' = Cut(index, f, m, Number(o.k, n))
       [] OTHER -> UNCHANGED <<lines, index>>
  /\ Len(hist') = N => PrintT("P" \o ToJson(<<start, hist'>>))

Next == \E o \in Ops: Do(o)
Spec == Init /\ [][Next]_vars

InStep == lines = Lines(layers) /\ index = Index(layers)
NothingTwice == IsInjective(lines)
(* an operation leaves every other layer as it was *)
OthersKept == hist # <<>> => LET o == hist[Len(hist)] IN Len(layers) = Len(Programs[start])
=============================================================================
