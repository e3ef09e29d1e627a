----------------------------- MODULE MCMachine ------------------------------
(* All programs of N lines over an alphabet, executed on the reference      *)
(* printer.  Properties of the printer itself are checked in every state and*)
(* each complete program is printed (as alphabet indexes), to be replayed   *)
(* into the implementation.                                                 *)
EXTENDS Machine, TLC, Json, IOUtils

Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
CONSTANT N

VARIABLES prog, m, mo, prev     \* program so far, printer ("last"), printer ("or"), printer before the last line
vars == <<prog, m, mo, prev>>

Init == prog = <<>> /\ m = Origin(0, 0, 0) /\ mo = m /\ prev = m

Step(k) == /\ Len(prog) < N
           /\ prog' = Append(prog, k)
           /\ prev' = m
           /\ m' = Exec(m, Alphabet[k], "last")
           /\ mo' = Exec(mo, Alphabet[k], "or")
           /\ Len(prog') = N => PrintT("P" \o ToJson(prog'))

Next == \E k \in 1..Len(Alphabet): Step(k)
Spec == Init /\ [][Next]_vars

Last == Alphabet[prog[Len(prog)]]
Started == prog # <<>>

(* an absolute move brings the named axes where the program says *)
AbsoluteMovesReach ==
  Started /\ IsMove(Last) /\ ~prev.rel =>
    /\ Has(Last.x) => m.x - m.ox = U(prev, Last.x)
    /\ Has(Last.y) => m.y - m.oy = U(prev, Last.y)
    /\ Has(Last.z) => m.z - m.oz = U(prev, Last.z)
(* only moves and homing move, only moves extrude, G92 moves nothing *)
OnlyMovesMove ==
  Started /\ ~IsMove(Last) => /\ m.e = prev.e /\ m.tot = prev.tot /\ m.maxE = prev.maxE /\ ~m.ext
                              /\ Last.c # "G28" => m.x = prev.x /\ m.y = prev.y /\ m.z = prev.z
(* G92 makes the named coordinates true *)
OriginTrue ==
  Started /\ Last.c = "G92" => /\ Has(Last.x) => m.x - m.ox = U(prev, Last.x)
                               /\ Has(Last.e) => m.e - m.oe = U(prev, Last.e)
(* filament counted is filament moved; the maximum bounds it *)
FilamentCounted == m.tot = m.e /\ m.maxE >= m.tot /\ m.maxE >= 0
(* conventions only differ in E, and never for lines called unambiguous *)
ConventionsAgree == /\ m.x = mo.x /\ m.y = mo.y /\ m.z = mo.z /\ m.rel = mo.rel /\ m.f = mo.f
                    /\ (m.relE # (m.rel \/ m.m83)) => m.m83 \/ m.rel
=============================================================================
