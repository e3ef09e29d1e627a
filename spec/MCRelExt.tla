------------------------------ MODULE MCRelExt ------------------------------
(* All programs of N lines: original and converted ones, on printers of both*)
(* conventions.  amb: the conventions disagree on the original program.     *)
EXTENDS Run, TLC, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
CONSTANT N
VARIABLES prog, q, q2, mi, mo, mr, amb
vars == <<prog, q, q2, mi, mo, mr, amb>>
Init == prog = <<>> /\ q = RelStart /\ q2 = RelStart /\ mi = Origin(0, 0, 0) /\ mo = mi /\ mr = mi /\ amb = FALSE
RECURSIVE Again(_, _)
Again(s, ls) == IF ls = <<>> THEN [q |-> s, out |-> <<>>]
                ELSE LET r == Again(RelNext(s, Head(ls)), Tail(ls)) IN [q |-> r.q, out |-> RelOut(s, Head(ls)) \o r.out]
Step(k) == LET l == Alphabet[k] o == RelOut(q, l) IN
  /\ Len(prog) < N /\ ~amb
  /\ prog' = Append(prog, k)
  /\ q' = RelNext(q, l)
  /\ mi' = Exec(mi, l, "last")
  /\ mo' = ExecAll(mo, o, "last") /\ mr' = ExecAll(mr, o, "or")
  /\ amb' = ~Unambiguous(mi, l)
  /\ q2' = Again(q2, o).q
  /\ Len(prog') = N /\ ~amb' => PrintT("P" \o ToJson(prog'))
Next == \E k \in 1..Len(Alphabet): Step(k)
Spec == Init /\ [][Next]_vars
FilamentKept == ~amb => mo.tot = mi.tot /\ mr.tot = mi.tot
PathKept == mo.x = mi.x /\ mo.y = mi.y /\ mo.z = mi.z /\ mo.f = mi.f
(* a second conversion leaves the converted lines as they are *)
Idempotent == [][~amb' => LET o == RelOut(q, Alphabet[prog'[Len(prog')]]) IN Again(q2, o).out = o]_vars
=============================================================================
