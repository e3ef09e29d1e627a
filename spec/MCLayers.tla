------------------------------ MODULE MCLayers ------------------------------
(* All programs of N lines over an alphabet, cut into layers by the design  *)
(* (a line changing the commanded height starts a new layer).               *)
EXTENDS Layers, TLC, Json, IOUtils

Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
CONSTANT N

VARIABLES prog, s, layers      \* layers: sequence of [z, from, to]
vars == <<prog, s, layers>>

Init == prog = <<>> /\ s = Start(<<0, 0, 0>>) /\ layers = <<>>

Step(k) ==
  LET s2 == Advance(s, Alphabet[k])
      n == Len(prog) + 1 IN
  /\ Len(prog) < N
  /\ prog' = Append(prog, k)
  /\ s' = s2
  /\ layers' = IF s2.new \/ layers = <<>> THEN Append(layers, [z |-> s2.z, from |-> n, to |-> n])
               ELSE [layers EXCEPT ![Len(layers)].to = n]
  /\ Len(prog') = N => PrintT("P" \o ToJson(prog'))

Next == \E k \in 1..Len(Alphabet): Step(k)
Spec == Init /\ [][Next]_vars

(* layers follow each other and cover the program *)
Cover == /\ layers # <<>> => layers[1].from = 1 /\ layers[Len(layers)].to = Len(prog)
         /\ \A i \in 1..Len(layers): layers[i].from <= layers[i].to
         /\ \A i \in 2..Len(layers): layers[i].from = layers[i - 1].to + 1
(* the height is where the printer is, above the origin in force *)
HeightTrue == ~s.lost => s.m.z - s.m.oz = IF Has(s.z) THEN s.z ELSE 0
(* two successive layers have different heights *)
Boundaries == \A i \in 2..Len(layers): layers[i].z # layers[i - 1].z
(* printed heights are heights of layers; none without extrusion *)
Printed == /\ s.zs \subseteq {layers[i].z: i \in 1..Len(layers)}
           /\ (s.zs # {}) <=> s.anyext
(* the highest total is not lower than the current one *)
Filament == s.m.maxE >= s.m.tot /\ (s.m.maxE > 0 => s.anyext)
(* bounds of extruding moves are within those of all moves *)
Bounds == s.anyext => /\ s.all.x0 <= s.extb.x0 /\ s.extb.x0 <= s.extb.x1 /\ s.extb.x1 <= s.all.x1
                      /\ s.all.y0 <= s.extb.y0 /\ s.extb.y0 <= s.extb.y1 /\ s.extb.y1 <= s.all.y1
=============================================================================
