------------------------------ MODULE VLayers -------------------------------
(* Validates the layers (C04) and the summary (C06) of the implementation.  *)
(* A trace: L lines; h home; lay <<layer index of each line, in order>>;    *)
(* lz height of each layer (NA: none); ok 1 when the layers hold the lines, *)
(* in order; zs printed heights; sum the summary; cb layers said complete.  *)
EXTENDS Layers, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
What == IOEnv.WHAT

VARIABLES t, i, s, v
vars == <<t, i, s, v>>

Tr == Traces[t]
Init == /\ t \in 1..Len(Traces)
        /\ i = 0
        /\ s = Start(Traces[t].h)
        /\ v = IF Traces[t].err # "" THEN Traces[t].err
               ELSE IF Len(Traces[t].lay) # Len(Traces[t].L) \/ Traces[t].ok # 1 THEN "lines" ELSE "run"

Line == /\ v = "run"
        /\ i < Len(Tr.L)
        /\ i' = i + 1
        /\ s' = Advance(s, Tr.L[i + 1])
        /\ v' = IF What = "C04"
                THEN IF s'.odd THEN "skip"
                     ELSE IF i > 0 /\ s'.new # (Tr.lay[i + 1] # Tr.lay[i]) THEN "boundary"
                     ELSE IF i > 0 /\ Tr.lay[i + 1] < Tr.lay[i] THEN "order"
                     ELSE IF ~Near(Tr.lz[Tr.lay[i + 1]], s'.z, IF Fine(s'.z) THEN 501 ELSE 0) THEN "height"
                     ELSE "run"
                ELSE "run"
        /\ t' = t

Seen == {Tr.zs[k]: k \in 1..Len(Tr.zs)}
Known(S) == {z \in S: Has(z)}

(* layers but the last one were said to be complete, in order (cb: index and size when that is true) *)
Completed == LET n == Len(Tr.L) IN
             n > 0 => /\ Len(Tr.cb) = Tr.lay[n] - 1
                      /\ \A k \in 1..Len(Tr.cb): Tr.cb[k] = <<k - 1, Cardinality({j \in 1..n: Tr.lay[j] = k})>>

LayerEnd == IF Known(Seen) # Known(s.zs) THEN "printed"
            ELSE IF ~Completed THEN "callback"
            ELSE IF Cardinality(Seen) # Len(Tr.zs) THEN "twice"
            ELSE "ok"

(* sum: filament xmin xmax ymin ymax zmin zmax width depth height count *)
Tol == IF Tr.main = 1 THEN 600 ELSE 200
Box(b, q) == LET e == b.x0 = NA IN
   /\ Near(IF e THEN 0 ELSE b.x0, q[2], Tol) /\ Near(IF e THEN 0 ELSE b.x1, q[3], Tol)
   /\ Near(IF e THEN 0 ELSE b.y0, q[4], Tol) /\ Near(IF e THEN 0 ELSE b.y1, q[5], Tol)
SummaryEnd ==
  LET q == Tr.sum
      z == Known(s.zs) \cup {0}
  IN IF ~Near(s.m.maxE, q[1], Tol) THEN "filament"
     ELSE IF ~(IF s.m.maxE > Tol THEN Box(s.extb, q)
               ELSE IF ~s.anyext THEN Box(s.all, q)
               ELSE Box(s.extb, q) \/ Box(s.all, q)) THEN "bounds"
     ELSE IF ~(Near(q[3] - q[2], q[8], 3) /\ Near(q[5] - q[4], q[9], 3) /\ Near(q[7] - q[6], q[10], 3)) THEN "size"
     ELSE IF s.odd THEN "ok"
     ELSE IF ~Near(q[7], SetMax(z), IF Tr.main = 1 THEN 501 ELSE 0) THEN "zmax"
     ELSE IF ~Near(q[6], SetMin(z), IF Tr.main = 1 THEN 501 ELSE 0) THEN "zmin"
     ELSE IF q[11] \notin {Cardinality(s.zs), Cardinality(Known(s.zs))} THEN "layers"
     ELSE "ok"

Final == /\ v = "run"
         /\ i = Len(Tr.L)
         /\ v' = IF What = "C04" THEN LayerEnd ELSE SummaryEnd
         /\ UNCHANGED <<t, i, s>>

Verdict == /\ v \notin {"run", "done"}
           /\ PrintT("V " \o ToString(t) \o " " \o v \o " " \o ToString(i))
           /\ v' = "done"
           /\ UNCHANGED <<t, i, s>>

Next == Line \/ Final \/ Verdict
Spec == Init /\ [][Next]_vars
=============================================================================
