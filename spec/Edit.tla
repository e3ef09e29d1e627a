-------------------------------- MODULE Edit --------------------------------
(* A program edited in place: layers of lines (numbers standing for texts), *)
(* the last layer receiving what is appended.                               *)
(* An operation is [op, k, c]: "append" (c has one line, none when blank),  *)
(* "feed" (executed, not stored), "prepend"/"rewrite" of layer k with the   *)
(* lines c (blank ones left out).                                           *)
EXTENDS Integers, Sequences, SequencesExt

Apply(layers, o) ==
  CASE o.op = "append"  -> [layers EXCEPT ![Len(layers)] = @ \o o.c]
    [] o.op = "prepend" -> [layers EXCEPT ![o.k] = o.c \o @]
    [] o.op = "rewrite" -> [layers EXCEPT ![o.k] = o.c]
    [] OTHER            -> layers

Enabled(layers, o) == o.op \in {"prepend", "rewrite"} => o.k <= Len(layers) /\ layers[o.k] # <<>>

(* what is derived from the layers *)
Lines(layers) == FlattenSeq(layers)
Index(layers) == FlattenSeq([k \in 1..Len(layers) |-> [i \in 1..Len(layers[k]) |-> <<k - 1, i - 1>>]])
=============================================================================
