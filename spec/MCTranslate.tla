---------------------------- MODULE MCTranslate -----------------------------
(* All programs of N lines: original and translated ones, executed together *)
EXTENDS Run, TLC, Json, IOUtils
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
CONSTANT N
AX == atoi(IOEnv.AX)
AY == atoi(IOEnv.AY)
VARIABLES prog, q, mi, mo, sx, sy
vars == <<prog, q, mi, mo, sx, sy>>
Init == prog = <<>> /\ q = TranslateStart(AX, AY) /\ mi = Origin(0, 0, 0) /\ mo = mi /\ sx = 0 /\ sy = 0
Step(k) == LET l == Alphabet[k] IN
  /\ Len(prog) < N /\ prog' = Append(prog, k)
  /\ IsMove(l) => q.mode # "?"                  \* a mode is selected before the first move
  /\ q' = TranslateNext(q, l)
  /\ mi' = Exec(mi, l, "last") /\ mo' = ExecAll(mo, TranslateOut(q, l), "last")
  /\ sx' = ShiftX(mi, sx, l, AX) /\ sy' = ShiftY(mi, sy, l, AY)
  /\ Len(prog') = N => PrintT("P" \o ToJson(prog'))
Next == \E k \in 1..Len(Alphabet): Step(k)
Spec == Init /\ [][Next]_vars
Shifted == mo.x - mi.x = sx /\ mo.y - mi.y = sy
RestKept == mo.z = mi.z /\ mo.e = mi.e /\ mo.f = mi.f /\ mo.tot = mi.tot /\ mo.rel = mi.rel /\ mo.tool = mi.tool
Knows == q.shx = sx /\ q.shy = sy
(* coordinates relative to the origin are those of the original, plus the amount when it isn't yet part of the origin *)
Coordinates == q.mode = "abs" => (mo.x - mo.ox) - (mi.x - mi.ox) = (sx - q.ax) + q.trx
=============================================================================
