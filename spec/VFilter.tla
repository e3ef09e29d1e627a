------------------------------- MODULE VFilter ------------------------------
(* C08, C09, C10: validates what a filter wrote (O) for a program (L).      *)
(* kind "translate" (ax, ay, dec3: the amounts have at most 3 decimals) or  *)
(* "relext" (again: 1 when converting twice gives the same text).           *)
(* Lines also have ow (other words) and cm (comments), as texts.            *)
(* Lines of the output are either the next line of the program, or inserted:*)
(* TLC tries both.                                                          *)
EXTENDS Filters, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
What == IOEnv.WHAT
VARIABLES t, i, k, mi, mo, mr, sx, sy, n, v
vars == <<t, i, k, mi, mo, mr, sx, sy, n, v>>
\* i, k: lines read in the program and in the output; mi original printer; mo, mr: printers of both conventions executing the output
Tr == Traces[t]
Home(h) == Origin(h[1], h[2], h[3])
Init == /\ t \in 1..Len(Traces) /\ i = 0 /\ k = 0 /\ sx = 0 /\ sy = 0 /\ n = 0
        /\ mi = Home(Traces[t].h) /\ mo = mi /\ mr = mi
        /\ v = IF Traces[t].err # "" THEN Traces[t].err ELSE "run"

Translating == Tr.kind = "translate"
(* what a rewriting may lose: words are written with 3 decimals (5 for E, 5 and 7 in inches) *)
XYTol == (IF Tr.dec3 = 1 THEN 20 ELSE 70) * (2 + n)
ETol == 2 + 26 * (IF mi.imp THEN 1 ELSE 0)
ETolAll == (3 + 26 * (IF Tr.inches = 1 THEN 1 ELSE 0)) * (2 + n)
WTol(imp) == IF imp THEN 2 ELSE 52
SameWord(a, b, tol) == Has(a) = Has(b) /\ (Has(a) => Near(a, b, tol))
SameOrAdded(a, b, tol, bare) == IF bare /\ ~Has(a) THEN TRUE ELSE SameWord(a, b, tol)

Selected == \E j \in 1..i: Tr.L[j].c \in {"G90", "G91"}
Insertion(o) == IF Translating THEN o.c \in LinearMoves /\ HasXY(o) /\ ~(Has(o.z) \/ Has(o.e) \/ Has(o.f)) /\ o.ow = "" /\ o.cm = ""
                                     /\ i < Len(Tr.L) /\ mi.rel /\ IsMove(Tr.L[i + 1]) /\ HasXY(Tr.L[i + 1])
                                     /\ (sx # Tr.ax \/ sy # Tr.ay)
                ELSE o.c = "M83" /\ o.cm = ""
Insert == /\ v = "run" /\ k < Len(Tr.O) /\ Insertion(Tr.O[k + 1])
          /\ mo' = Exec(mo, Tr.O[k + 1], "last") /\ mr' = Exec(mr, Tr.O[k + 1], "or")
          /\ k' = k + 1
          /\ sx' = (IF Translating THEN Tr.ax ELSE sx) /\ sy' = (IF Translating THEN Tr.ay ELSE sy)
          /\ UNCHANGED <<t, i, mi, n, v>>

(* C09: the words of a line *)
Words(l, o) ==
  LET bare == Translating /\ Bare(l)
      w == WTol(mi.imp) IN
  IF o.c # l.c /\ ~(~Translating /\ l.c = "M82" /\ o.c = "M83") THEN "command"
  ELSE IF l.c = "M82" /\ ~Translating THEN IF o.ow = "" \/ o.ow = l.ow THEN "run" ELSE "otherwords"
  ELSE IF l.ow # o.ow THEN "otherwords"
  ELSE IF l.cm # o.cm THEN "comments"
  ELSE IF ~SameOrAdded(l.z, o.z, w, bare) THEN "z"
  ELSE IF ~(IF Translating THEN SameOrAdded(l.e, o.e, 2, bare) ELSE Has(l.e) = Has(o.e)) THEN "e"
  ELSE IF ~(IF Translating THEN bare \/ (Has(l.x) = Has(o.x) /\ Has(l.y) = Has(o.y))
            ELSE SameWord(l.x, o.x, w) /\ SameWord(l.y, o.y, w)) THEN "xy"
  ELSE IF ~(SameWord(l.i, o.i, w) /\ SameWord(l.j, o.j, w)) THEN "ij"
  ELSE IF ~SameWord(l.f, o.f, 1) THEN "f"
  ELSE "run"

Moved(l, o, mi2, mo2, sx2, sy2) ==
  IF ~Near(mo2.x - mi2.x, sx2, XYTol) THEN "x"
  ELSE IF ~Near(mo2.y - mi2.y, sy2, XYTol) THEN "y"
  ELSE IF ~Near(mo2.z, mi2.z, 60 * (2 + n)) THEN "z"
  ELSE IF ~Near(mo2.e, mi2.e, ETolAll) THEN "e"
  ELSE IF ~Near(mo2.f, mi2.f, 40) THEN "f"
  ELSE IF o.c # l.c \/ o.t # l.t THEN "command"
  ELSE IF IsMove(l) /\ ~(SameWord(l.i, o.i, 52) /\ SameWord(l.j, o.j, 52)) THEN "ij"
  ELSE "run"

Extruded(l, o, mi2, mo2, mr2) ==
  LET d == mi2.tot - mi.tot IN
  IF o.c # l.c /\ ~(l.c = "M82" /\ o.c = "M83") THEN "command"
  ELSE IF ~Near(mo2.tot - mo.tot, d, ETol) THEN "filament"
  ELSE IF ~Near(mr2.tot - mr.tot, d, ETol) THEN "filament-or"
  ELSE IF ~Near(mo2.tot, mi2.tot, ETolAll) THEN "total"
  ELSE IF IsMove(l) /\ Has(l.e) # Has(o.e) THEN "word"
  ELSE IF IsMove(l) /\ Has(l.e) /\ ~Near(U(mo, o.e), d, ETol) THEN "amount"
  ELSE "run"

Match ==
  /\ v = "run" /\ i < Len(Tr.L) /\ k < Len(Tr.O)
  /\ LET l == Tr.L[i + 1]
         o == Tr.O[k + 1]
         mi2 == Exec(mi, l, "last")
         mo2 == Exec(mo, o, "last")
         mr2 == Exec(mr, o, "or")
         idle == IsMove(l) /\ ~Selected    \* no positioning mode selected: not translated
         sx2 == IF idle THEN sx ELSE ShiftX(mi, sx, l, Tr.ax)
         sy2 == IF idle THEN sy ELSE ShiftY(mi, sy, l, Tr.ay) IN
     /\ mi' = mi2 /\ mo' = mo2 /\ mr' = mr2 /\ sx' = sx2 /\ sy' = sy2
     /\ n' = IF l.c = "G92" \/ (IsMove(l) /\ Has(l.e)) THEN n + 1 ELSE n
     /\ v' = CASE What = "C09" -> Words(l, o)
               [] What = "C08" -> IF idle THEN "skip" ELSE Moved(l, o, mi2, mo2, sx2, sy2)
               [] What = "C10" -> IF ~Unambiguous(mi, l) THEN "skip" ELSE Extruded(l, o, mi2, mo2, mr2)
  /\ i' = i + 1 /\ k' = k + 1 /\ t' = t

Lost == v = "run" /\ i < Len(Tr.L) /\ k = Len(Tr.O) /\ v' = "lost" /\ UNCHANGED <<t, i, k, mi, mo, mr, sx, sy, n>>
Added == v = "run" /\ i = Len(Tr.L) /\ k < Len(Tr.O) /\ ~Insertion(Tr.O[k + 1]) /\ v' = "added" /\ UNCHANGED <<t, i, k, mi, mo, mr, sx, sy, n>>
Final == /\ v = "run" /\ i = Len(Tr.L) /\ k = Len(Tr.O)
         /\ v' = IF What = "C10" /\ Tr.again # 1 THEN "again" ELSE "ok"
         /\ UNCHANGED <<t, i, k, mi, mo, mr, sx, sy, n>>
Verdict == /\ v \notin {"run", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(i))
           /\ v' = "done" /\ UNCHANGED <<t, i, k, mi, mo, mr, sx, sy, n>>
Next == Insert \/ Match \/ Lost \/ Added \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
