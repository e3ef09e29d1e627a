-------------------------------- MODULE Cli ---------------------------------
(* The command line tools and Cura plugins: what ends up in the input file, *)
(* the output file and on standard output.                                  *)
(* A content is a text naming it: "none" (no such file), "raw" (the bytes   *)
(* of the input), "empty", or "w" followed by the steps applied to the      *)
(* program before it was written: "w.T.E.P".                                *)
(* A run r: tool, o (set of options), inp (file, stdin, dash), out (file,   *)
(* stdout, dash, inplace), refused: the temperature gradient is impossible, *)
(* cura: the program says it comes from Cura.                               *)
EXTENDS Naturals, Sequences

Tools == {"mod", "stretch", "arcs", "temp", "pstretch", "ptemp"}
Plugin(t) == t \in {"pstretch", "ptemp"}
(* steps, in order *)
Steps(r) ==
  CASE r.tool = "mod" -> (IF r.x \/ r.y THEN <<"T">> ELSE <<>>) \o (IF r.e THEN <<"E">> ELSE <<>>) \o (IF r.p THEN <<"P">> ELSE <<>>)
    [] r.tool = "stretch" -> <<"E", IF r.cura THEN "C" ELSE "S">>
    [] r.tool = "pstretch" -> <<"E", "C">>
    [] r.tool = "arcs" -> <<"A">>
    [] r.tool \in {"temp", "ptemp"} -> <<"G">>
Fails(r) == r.refused /\ r.tool \in {"temp", "ptemp"}
(* where the result goes *)
Target(r) == IF Plugin(r.tool) THEN "in" ELSE IF r.out = "inplace" /\ r.inp = "file" THEN "in" ELSE IF r.out = "file" THEN "out" ELSE "std"

RECURSIVE Name(_)
Name(s) == IF s = <<>> THEN "w" ELSE Name(SubSeq(s, 1, Len(s) - 1)) \o "." \o s[Len(s)]

(* contents before the run.  An output file may exist already: "old". *)
Before(r) == [in |-> IF r.inp = "file" THEN "raw" ELSE "none", out |-> IF r.out = "file" THEN r.old ELSE "none", std |-> "empty"]
=============================================================================
