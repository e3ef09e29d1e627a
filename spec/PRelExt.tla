------------------------------- MODULE PRelExt ------------------------------
(* The design of the conversion to relative extrusion, for programs of any length with any
   numbers (in mm): an inductive invariant, checked with Apalache.  Values
   are integers without bounds; NA is the only one no written word has.     *)
EXTENDS Filters
VARIABLES
  \* @type: $relext;
  q,
  \* @type: $machine;
  mi,
  \* @type: $machine;
  mo,
  \* @type: $machine;
  mr
\* @type: ($machine, Seq($line), Str) => $machine;
All(m, ls, conv) == IF Len(ls) = 1 THEN Exec(m, ls[1], conv) ELSE Exec(Exec(m, ls[1], conv), ls[2], conv)
Commands == {"G0", "G1", "G2", "G3", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83", "T", ""}
Stutter == UNCHANGED <<q, mi, mo, mr>>
Init == \E hx \in Int, hy \in Int, hz \in Int: q = RelStart /\ mi = Origin(hx, hy, hz) /\ mo = mi /\ mr = mi
\* @type: $line => Bool;
Sane(l) == LET o == RelOut(q, l) IN Has(o[Len(o)].e) = Has(l.e)
\* @type: $line => Bool;
Step(l) ==
  /\ Unambiguous(mi, l)
  /\ l.c # "G20"
  /\ Sane(l)
  /\ q' = RelNext(q, l)
  /\ mi' = Exec(mi, l, "last") /\ mo' = All(mo, RelOut(q, l), "last") /\ mr' = All(mr, RelOut(q, l), "or")
Next == \E c \in Commands, x \in Int, y \in Int, z \in Int, e \in Int, f \in Int, hx \in BOOLEAN, hy \in BOOLEAN, hz \in BOOLEAN, t \in Int:
  /\ (t >= 0) <=> c = "T"
  /\ Step([c |-> c, x |-> x, y |-> y, z |-> z, e |-> e, f |-> f, i |-> NA, j |-> NA, hx |-> hx, hy |-> hy, hz |-> hz, t |-> t])
PathKept == mo.x = mi.x /\ mo.y = mi.y /\ mo.z = mi.z /\ mo.f = mi.f
FilamentKept == mo.tot = mi.tot /\ mr.tot = mi.tot
Ind == /\ FilamentKept
       /\ mo = [mi EXCEPT !.relE = mo.relE, !.m83 = mo.m83, !.ext = mo.ext]
       /\ mr = [mi EXCEPT !.relE = mr.relE, !.m83 = mr.m83, !.ext = mr.ext]
       /\ q.e = mi.e - mi.oe /\ q.m83 = mi.m83 /\ q.rel = mi.rel
       /\ (mi.relE => mo.relE) /\ (mi.m83 => mr.m83)
       /\ (q.out => mo.relE /\ mr.m83)
       /\ (mi.rel => mo.relE)
       /\ ~mi.imp
IndInit ==
  /\ \E e \in Int, m83 \in BOOLEAN, rel \in BOOLEAN, out \in BOOLEAN: q = [e |-> e, m83 |-> m83, rel |-> rel, out |-> out]
  /\ \E x \in Int, y \in Int, z \in Int, e \in Int, ox \in Int, oy \in Int, oz \in Int, oe \in Int, f \in Int,
        rel \in BOOLEAN, relE \in BOOLEAN, m83 \in BOOLEAN, tool \in Int, tot \in Int, maxE \in Int, ext \in BOOLEAN, hx \in Int, hy \in Int, hz \in Int:
       mi = [x |-> x, y |-> y, z |-> z, e |-> e, ox |-> ox, oy |-> oy, oz |-> oz, oe |-> oe, f |-> f, imp |-> FALSE, rel |-> rel, relE |-> relE, m83 |-> m83,
             tool |-> tool, tot |-> tot, maxE |-> maxE, ext |-> ext, hx |-> hx, hy |-> hy, hz |-> hz]
  /\ \E relE \in BOOLEAN, m83 \in BOOLEAN, ext \in BOOLEAN: mo = [mi EXCEPT !.relE = relE, !.m83 = m83, !.ext = ext]
  /\ \E relE \in BOOLEAN, m83 \in BOOLEAN, ext \in BOOLEAN: mr = [mi EXCEPT !.relE = relE, !.m83 = m83, !.ext = ext]
  /\ Ind
=============================================================================
