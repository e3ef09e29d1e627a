------------------------------- MODULE Filters ------------------------------
(* The filters as transducers of lines, and what is required of them.       *)
(* Values are exact here; the implementation rounds what it writes.         *)
EXTENDS Machine

\* @typeAlias: translate = {ax: Int, ay: Int, trx: Int, try: Int, shx: Int, shy: Int, mode: Str};
\* @typeAlias: relext = {e: Int, m83: Bool, rel: Bool, out: Bool};
FiltersAliases == TRUE

Blank == [c |-> "", x |-> NA, y |-> NA, z |-> NA, e |-> NA, f |-> NA, i |-> NA, j |-> NA,
          hx |-> FALSE, hy |-> FALSE, hz |-> FALSE, t |-> -1]
\* @type: Str => $line;
Command(c) == [Blank EXCEPT !.c = c]
\* @type: $line => Bool;
Bare(l) == l.c = "G92" /\ ~(Has(l.x) \/ Has(l.y) \/ Has(l.z) \/ Has(l.e))
\* @type: $line => Bool;
HomesX(l) == l.c = "G28" /\ (l.hx \/ ~(l.hx \/ l.hy \/ l.hz))
\* @type: $line => Bool;
HomesY(l) == l.c = "G28" /\ (l.hy \/ ~(l.hx \/ l.hy \/ l.hz))

---------------------------------------------------------------------------
(* Requirement: how far the head has to be from where the original program  *)
(* puts it (s), after line l which the original printer m executes.         *)
\* @type: ($machine, Int, $line, Int) => Int;
ShiftX(m, s, l, a) ==
  IF IsMove(l) THEN IF m.rel THEN IF HasXY(l) THEN a ELSE s ELSE IF Has(l.x) THEN a ELSE s
  ELSE IF HomesX(l) THEN 0 ELSE s
\* @type: ($machine, Int, $line, Int) => Int;
ShiftY(m, s, l, a) ==
  IF IsMove(l) THEN IF m.rel THEN IF HasXY(l) THEN a ELSE s ELSE IF Has(l.y) THEN a ELSE s
  ELSE IF HomesY(l) THEN 0 ELSE s

(* Design of the translation (mm only): tr what is left to add to absolute  *)
(* coordinates, sh how far the head is from the original path.              *)
\* @type: (Int, Int) => $translate;
TranslateStart(ax, ay) == [ax |-> ax, ay |-> ay, trx |-> ax, try |-> ay, shx |-> 0, shy |-> 0, mode |-> "?"]
\* @type: ($translate, $line) => Seq($line);
TranslateOut(q, l) ==
  CASE IsMove(l) /\ q.mode = "abs" -> <<[l EXCEPT !.x = IF Has(@) THEN @ + q.trx ELSE NA, !.y = IF Has(@) THEN @ + q.try ELSE NA]>>
    [] IsMove(l) /\ q.mode = "rel" /\ HasXY(l) /\ (q.shx # q.ax \/ q.shy # q.ay)
         -> <<[Blank EXCEPT !.c = "G0", !.x = q.ax - q.shx, !.y = q.ay - q.shy], l>>
    [] l.c = "G92" -> LET b == IF Bare(l) THEN [l EXCEPT !.x = 0, !.y = 0, !.z = 0, !.e = 0] ELSE l IN
         <<[b EXCEPT !.x = IF Has(@) THEN @ - (q.ax - q.shx) ELSE NA, !.y = IF Has(@) THEN @ - (q.ay - q.shy) ELSE NA]>>
    [] OTHER -> <<l>>
\* @type: ($translate, $line) => $translate;
TranslateNext(q, l) ==
  CASE IsMove(l) /\ q.mode = "abs" -> [q EXCEPT !.shx = IF Has(l.x) THEN q.ax ELSE @, !.shy = IF Has(l.y) THEN q.ay ELSE @]
    [] IsMove(l) /\ q.mode = "rel" /\ HasXY(l) -> [q EXCEPT !.shx = q.ax, !.shy = q.ay]
    [] l.c = "G90" -> [q EXCEPT !.mode = "abs"]
    [] l.c = "G91" -> [q EXCEPT !.mode = "rel"]
    [] l.c = "G28" -> [q EXCEPT !.trx = IF HomesX(l) THEN q.ax ELSE @, !.shx = IF HomesX(l) THEN 0 ELSE @,
                                !.try = IF HomesY(l) THEN q.ay ELSE @, !.shy = IF HomesY(l) THEN 0 ELSE @]
    [] l.c = "G92" -> [q EXCEPT !.trx = IF Bare(l) \/ Has(l.x) THEN 0 ELSE @, !.try = IF Bare(l) \/ Has(l.y) THEN 0 ELSE @]
    [] OTHER -> q

---------------------------------------------------------------------------
(* Design of the conversion to relative extrusion: e coordinate of the      *)
(* original program, its modes, whether the output is known to be relative. *)
\* @type: $relext;
RelStart == [e |-> 0, m83 |-> FALSE, rel |-> FALSE, out |-> FALSE]
\* @type: ($relext, $line) => Bool;
AbsE(q, l) == IsMove(l) /\ Has(l.e) /\ ~(q.m83 \/ q.rel)
\* @type: ($relext, $line) => Seq($line);
RelOut(q, l) ==
  CASE l.c = "M82" -> <<Command("M83")>>
    [] AbsE(q, l) /\ q.e # 0 /\ ~q.out -> <<Command("M83"), [l EXCEPT !.e = @ - q.e]>>
    [] AbsE(q, l) -> <<[l EXCEPT !.e = @ - q.e]>>
    [] OTHER -> <<l>>
\* @type: ($relext, $line) => $relext;
RelNext(q, l) ==
  CASE l.c = "M83" -> [q EXCEPT !.m83 = TRUE, !.out = TRUE]
    [] l.c = "M82" -> [q EXCEPT !.m83 = FALSE, !.out = TRUE]
    [] l.c = "G90" -> [q EXCEPT !.rel = FALSE, !.out = FALSE]
    [] l.c = "G91" -> [q EXCEPT !.rel = TRUE]
    [] l.c = "G92" -> [q EXCEPT !.e = IF Has(l.e) THEN l.e ELSE IF Bare(l) THEN 0 ELSE @]
    [] AbsE(q, l) -> [q EXCEPT !.e = l.e, !.out = @ \/ q.e # 0]
    [] IsMove(l) /\ Has(l.e) -> [q EXCEPT !.e = @ + l.e]
    [] OTHER -> q

=============================================================================
