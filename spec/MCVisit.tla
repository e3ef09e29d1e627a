------------------------------ MODULE MCVisit -------------------------------
(* All programs of N lines, walked by a visitor which adds pauses at the end*)
(* of layers: lines is what the walk goes over while it is edited.          *)
EXTENDS Visit, TLC, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
CONSTANT N
Requests == {{0}, {1}, {0, 1, 7}, {-1, 2}}
Pause == -1
VARIABLES prog, c, ph, req, lay, started, seen, j, k
\* ph: "cut", "walk", "end"; lay: layers (line numbers, Pause); seen: visited lines; j, k: layer and lines visited in it
vars == <<prog, c, ph, req, lay, started, seen, j, k>>
Init == /\ prog = <<>> /\ c = CutStart(<<0, 0, 0>>) /\ ph = "cut" /\ req = {} /\ lay = <<>> /\ started = {} /\ seen = <<>> /\ j = 0 /\ k = 0
Cut(a) == /\ ph = "cut" /\ Len(prog) < N
          /\ prog' = Append(prog, a) /\ c' = CutLine(c, Alphabet[a], Len(prog) + 1)
          /\ Len(prog') = N => PrintT("P" \o ToJson(prog'))
          /\ UNCHANGED <<ph, req, lay, started, seen, j, k>>
Range1(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Walk == /\ ph = "cut" /\ Len(prog) = N /\ ~c.s.odd /\ ph' = "walk"
        /\ req' \in Requests
        /\ lay' = [i \in 1..Len(c.y) |-> Range1(c.y[i].from, c.y[i].to)]
        /\ j' = 1 /\ k' = 0 /\ UNCHANGED <<prog, c, started, seen>>
Line == /\ ph = "walk" /\ k < Len(lay[j]) /\ seen' = Append(seen, lay[j][k + 1]) /\ k' = k + 1
        /\ UNCHANGED <<prog, c, ph, req, lay, started, j>>
EndLayer == /\ ph = "walk" /\ k = Len(lay[j])
            /\ LET n == Number(c, j) first == IsPrinted(c, j) /\ c.y[j].ext /\ n \notin started IN
               /\ started' = IF first THEN started \cup {n} ELSE started
               /\ lay' = IF first /\ n \in req THEN [lay EXCEPT ![j] = <<Pause>> \o @] ELSE lay
            /\ IF j = Len(lay) THEN ph' = "end" /\ UNCHANGED <<j, k>> ELSE ph' = ph /\ j' = j + 1 /\ k' = 0
            /\ UNCHANGED <<prog, c, req, seen>>
Next == (\E a \in 1..Len(Alphabet): Cut(a)) \/ Walk \/ Line \/ EndLayer
Spec == Init /\ [][Next]_vars
(* sections are the layers of the program *)
Sections == /\ Len(c.y) > 0 => c.y[1].from = 1 /\ c.y[Len(c.y)].to = Len(prog)
            /\ \A i \in 2..Len(c.y): c.y[i].from = c.y[i - 1].to + 1 /\ c.y[i].z # c.y[i - 1].z
(* every line once, in order, whatever was added *)
EveryLineOnce == ph = "end" => seen = Range1(1, N)
Paused == {i \in 1..Len(lay): lay[i] # <<>> /\ lay[i][1] = Pause}
Pauses == ph = "end" => /\ Paused = PauseAt(c, req)
                        /\ Cardinality(Paused) = Cardinality({r \in req: r \in 0..(Cardinality(Heights(c)) - 1)})
                        /\ \A i \in 1..Len(lay): \A m \in 2..Len(lay[i]): lay[i][m] # Pause
(* a printed height is printed by some section *)
Printing == \A z \in Heights(c): \E i \in 1..Len(c.y): c.y[i].z = z /\ c.y[i].ext
=============================================================================
