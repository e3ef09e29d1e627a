------------------------------- MODULE MCTemp -------------------------------
(* All programs of N lines, then written with every gradient: temperature   *)
(* commands are added before the sections.                                  *)
EXTENDS Temp, TLC, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
Gradients == ndJsonDeserialize(IOEnv.GRADIENTS)
CONSTANT N
VARIABLES prog, c, ph, g, j, last, out
\* last: temperature in force (0: none yet); out: <<section, temperature>> of the commands
vars == <<prog, c, ph, g, j, last, out>>
Init == prog = <<>> /\ c = CutStart(<<0, 0, 0>>) /\ ph = "cut" /\ g = 1 /\ j = 0 /\ last = 0 /\ out = <<>>
Cut(a) == /\ ph = "cut" /\ Len(prog) < N
          /\ prog' = Append(prog, a) /\ c' = CutLine(c, Alphabet[a], Len(prog) + 1)
          /\ Len(prog') = N => PrintT("P" \o ToJson(prog'))
          /\ UNCHANGED <<ph, g, j, last, out>>
G == Gradients[g]
Begin == /\ ph = "cut" /\ Len(prog) = N /\ ~c.s.odd
         /\ g' \in 1..Len(Gradients)
         /\ ph' = IF Refused(c, Gradients[g']) THEN "refused" ELSE "write"
         /\ UNCHANGED <<prog, c, j, last, out>>
Write == /\ ph = "write" /\ j < Len(c.y)
         /\ j' = j + 1
         /\ IF Graded(c, G, j + 1)
            THEN LET T == Exact(G, Lowest(c, G), Highest(c), c.y[j + 1].z) IN
                 /\ last' = T
                 /\ out' = IF T # last THEN Append(out, <<j + 1, T>>) ELSE out
            ELSE UNCHANGED <<last, out>>
         /\ UNCHANGED <<prog, c, ph, g>>
End == ph = "write" /\ j = Len(c.y) /\ ph' = "end" /\ UNCHANGED <<prog, c, g, j, last, out>>
Next == (\E a \in 1..Len(Alphabet): Cut(a)) \/ Begin \/ Write \/ End
Spec == Init /\ [][Next]_vars

Lo == Min2(G.a, G.b)
Hi == Max2(G.a, G.b)
ZOf(k) == c.y[out[k][1]].z
InRange == \A k \in 1..Len(out): out[k][2] >= Lo /\ out[k][2] <= Hi
(* higher is closer to the end temperature *)
Monotonic == \A k, m \in 1..Len(out): ZOf(k) < ZOf(m) => IF G.a < G.b THEN out[k][2] <= out[m][2] ELSE out[k][2] >= out[m][2]
Ends == \A k \in 1..Len(out): /\ ZOf(k) = Lowest(c, G) => out[k][2] = G.a
                              /\ ZOf(k) = Highest(c) => out[k][2] = G.b
OncePerSection == \A k \in 2..Len(out): out[k][1] > out[k - 1][1] /\ out[k][2] # out[k - 1][2]
AboveMinimum == \A k \in 1..Len(out): ZOf(k) > G.m
(* a discrete gradient uses at most n + 1 temperatures; heights in between a and b use both when flat *)
FewTemperatures == G.n > 0 => Cardinality({out[k][2]: k \in 1..Len(out)}) <= G.n + 1
(* a gradient which isn't refused grades its lowest section *)
Starts1 == ph = "end" => out # <<>>
CanonicalValid == \A k \in 1..Len(out): Valid(G, Lowest(c, G), Highest(c), ZOf(k), out[k][2])
=============================================================================
