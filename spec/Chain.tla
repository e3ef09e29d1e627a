------------------------------- MODULE Chain --------------------------------
(* A program object which is edited and filtered.  It is what it writes,    *)
(* with layers, and views derived from it.                                  *)
(* A filter decides for each line, in order, what it becomes:               *)
(*   none, line  the same line      del  nothing      dup  twice            *)
(*   new  another line              pre, post  another line before or after *)
EXTENDS Edit

Becomes(kind, l, new) ==
  CASE kind \in {"none", "line"} -> <<l>>
    [] kind = "del"  -> <<>>
    [] kind = "dup"  -> <<l, l>>
    [] kind = "new"  -> <<new>>
    [] kind = "pre"  -> <<new, l>>
    [] kind = "post" -> <<l, new>>

(* plan: what the lines become, again and again in that order *)
Filtered(plan, text, new) ==
  FlattenSeq([k \in 1..Len(text) |-> Becomes(plan[((k - 1) % Len(plan)) + 1], text[k], new)])

(* views of a program which don't depend on what its lines mean *)
Views(s) == IF s.l # Lines(s.y) THEN "lines"
            ELSE IF s.n # Len(s.l) THEN "length"
            ELSE IF s.x # Index(s.y) THEN "indexes"
            ELSE IF s.w # s.l THEN "written"
            ELSE "run"
=============================================================================
