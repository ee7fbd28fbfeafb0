------------------------------ MODULE GerberMC ------------------------------
(* Exhaustive exploration of the reader's modal state with a small command *)
(* alphabet; every transition of the state graph is emitted as a program   *)
(* (the shortest path to its source state followed by it) that the         *)
(* conformance driver replays through the real reader.                     *)
EXTENDS Gerber, TLC, Json

CONSTANTS Coords, Offsets, MaxContour, Emit, Funcs, Quads
VARIABLES g, hist
vars == <<g, hist>>

ApC == [sh |-> "C", s |-> <<10>>, h |-> <<>>, n |-> 0, rot |-> 0]
ApR == [sh |-> "R", s |-> <<20, 10>>, h |-> <<4>>, n |-> 0, rot |-> 0]
Prologue == << [c |-> "MO", u |-> "metric"], [c |-> "AD", d |-> 10, ap |-> ApC],
               [c |-> "AD", d |-> 11, ap |-> ApR] >>

Opt(S) == {<<>>} \cup {<<v>> : v \in S}
OffPairs == {<<<<>>, <<>>>>} \cup {<<<<a>>, <<b>>>> : a \in Offsets, b \in Offsets}
            \cup {<<<<a>>, <<>>>> : a \in Offsets} \cup {<<<<>>, <<a>>>> : a \in Offsets}
Cmds ==
  {[c |-> "SEL", d |-> d] : d \in {10, 11}} \cup
  {[c |-> "REG", on |-> b] : b \in BOOLEAN} \cup
  {[c |-> "QUAD", m |-> m] : m \in Quads} \cup
  {[c |-> "LP", pol |-> p] : p \in {"dark", "clear"}} \cup
  {[c |-> "NOP"]} \cup
  {[c |-> "CO", f |-> f, x |-> x, y |-> y, i |-> ij[1], j |-> ij[2], o |-> o] :
     f \in Funcs, x \in Opt(Coords), y \in Opt(Coords), ij \in OffPairs,
     o \in {"", "D01", "D02", "D03"}}

\* commands that actually occur in files: not the empty block
Sensible(cm) == cm.c = "CO" =>
   /\ ~(cm.f = "" /\ cm.x = <<>> /\ cm.y = <<>> /\ cm.i = <<>> /\ cm.j = <<>> /\ cm.o = "")
   /\ (cm.i # <<>> \/ cm.j # <<>>) => (cm.o # "D02" /\ cm.o # "D03")
SCmds == {cm \in Cmds : Sensible(cm)}

Init == g = Run(GInit, Prologue) /\ hist = Prologue
Next == \E cm \in SCmds :
          /\ WellFormed(g, cm)
          /\ g' = Step(g, cm)
          /\ hist' = Append(hist, cm)
Spec == Init /\ [][Next]_vars

Bound == Len(g.contour) <= MaxContour
\* the image never influences behaviour; contours only through their length
View == <<[g EXCEPT !.img = <<>>, !.contour = Len(g.contour)]>>

EmitIt == Emit => PrintT("P " \o ToJson(hist'))

\* --------------------------------------------------------------- properties
TypeOK == /\ g.op \in {"D01", "D02", "D03"} /\ g.interp \in {"linear", "arc"}
          /\ g.pol \in {"dark", "clear"} /\ g.region \in BOOLEAN
          /\ g.units = "metric"
ContourOnlyInRegion == ~g.region => g.contour = <<>>
\* segments of a contour are connected and end at the current point
Connected == /\ \A k \in 1..Len(g.contour) - 1 : g.contour[k].e = g.contour[k + 1].s
             /\ g.contour # <<>> => g.contour[Len(g.contour)].e = <<g.x, g.y>>
\* every determined single-quadrant arc has exactly one centre
CentreUnique ==
  \A s \in {<<g.x, g.y>>} : \A e \in Coords \X Coords : \A ij \in Offsets \X Offsets :
    \A d \in {"clockwise", "counterclockwise"} :
      (s # e /\ ij[1] >= 0 /\ ij[2] >= 0) => Cardinality(ValidCentres(s, e, ij, d)) <= 1
\* the image only grows, by at most one object per command
ImageGrows == [][IsPrefix(g.img, g'.img) /\ Len(g'.img) <= Len(g.img) + 1]_vars
\* a new object carries the polarity and units in force; draws connect the
\* old to the new current point; nothing is drawn by a move outside a region
LastCmd == hist'[Len(hist')]
NewObject == [][Len(g'.img) > Len(g.img) =>
   LET o == g'.img[Len(g'.img)]
   IN /\ o.pol = g.pol /\ o.u = g.units
      /\ o.k \in {"line", "arc"} => o.s = <<g.x, g.y>> /\ o.e = <<g'.x, g'.y>> /\ g'.op = "D01"
      /\ o.k = "flash" => o.p = <<g'.x, g'.y>> /\ g'.op = "D03"
      /\ o.k = "region" => g.region /\ o.segs = g.contour
      /\ o.k = "arc" => Sq(Sub(o.s, o.ctr)) = Sq(Sub(o.e, o.ctr))]_vars
\* nothing is lost: every segment added to a contour ends up in a region
NothingLost == [][Len(g'.contour) < Len(g.contour) => Len(g'.img) = Len(g.img) + 1]_vars
=============================================================================
