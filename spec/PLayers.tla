------------------------------- MODULE PLayers ------------------------------
(* Layers are cut by commanded height: it is the coordinate of the printer, *)
(* for programs of any length with any numbers (printers which home at 0).  *)
(* Inductive invariant, checked with Apalache.                              *)
EXTENDS Layers
VARIABLES
  \* @type: $machine;
  p,
  \* @type: Int;
  z,
  \* @type: Bool;
  lost,
  \* @type: Bool;
  ext
Commands == {"G0", "G1", "G2", "G3", "G4", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83", "T", ""}
\* @type: Int => Int;
OrZero(h) == IF Has(h) THEN h ELSE 0
Init == p = Origin(0, 0, 0) /\ z = NA /\ lost = FALSE /\ ext = FALSE
Stutter == UNCHANGED <<p, z, lost, ext>>
\* @type: $line => Bool;
Do(l) ==
  /\ Has(l.z) => Has(Height(p, z, l))          \* no height is NA
  /\ p' = Exec(p, l, "last") /\ z' = Height(p, z, l)
  /\ lost' = IF SetsHeight(p, l) THEN FALSE ELSE lost \/ LosesHeight(z, l)
  /\ ext' = (ext \/ p'.ext)
Next == \E c \in Commands, x \in Int, y \in Int, lz \in Int, e \in Int, f \in Int, hx \in BOOLEAN, hy \in BOOLEAN, hz \in BOOLEAN, t \in Int:
  /\ (t >= 0) <=> c = "T"
  /\ Has(lz) => hz
  /\ Do([c |-> c, x |-> x, y |-> y, z |-> lz, e |-> e, f |-> f, i |-> NA, j |-> NA, hx |-> hx, hy |-> hy, hz |-> hz, t |-> t])
(* the height is where the printer is, above the origin in force *)
HeightTrue == ~lost => OrZero(z) = p.z - p.oz
Filament == p.maxE >= p.tot /\ p.maxE >= 0 /\ (p.maxE > 0 => ext)
Ind == HeightTrue /\ Filament /\ p.hz = 0 /\ p.tot = p.e
IndInit ==
  /\ \E x \in Int, y \in Int, pz \in Int, e \in Int, ox \in Int, oy \in Int, oz \in Int, oe \in Int, f \in Int, imp \in BOOLEAN,
        rel \in BOOLEAN, relE \in BOOLEAN, m83 \in BOOLEAN, tool \in Int, tot \in Int, maxE \in Int, hx \in Int, hy \in Int, hz \in Int:
       p = [x |-> x, y |-> y, z |-> pz, e |-> e, ox |-> ox, oy |-> oy, oz |-> oz, oe |-> oe, f |-> f, imp |-> imp, rel |-> rel, relE |-> relE, m83 |-> m83,
             tool |-> tool, tot |-> tot, maxE |-> maxE, ext |-> FALSE, hx |-> hx, hy |-> hy, hz |-> hz]
  /\ z \in Int /\ lost \in BOOLEAN /\ ext \in BOOLEAN
  /\ Ind
=============================================================================
