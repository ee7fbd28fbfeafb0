------------------------------- MODULE Gerber -------------------------------
(***************************************************************************)
(* The RS-274-X reader as a state machine over commands.  A state record   *)
(* g holds the modal state of the photo-plotter model and the image, i.e.  *)
(* the sequence of graphic objects produced so far.  Coordinates are       *)
(* integers (multiples of the resolution of the file's number format).     *)
(*                                                                         *)
(* Commands (records, field c is the kind); an optional number is the      *)
(* empty sequence (absent) or a sequence of one integer:                   *)
(*   [c|->"MO", u]            units "inch"/"metric" (MO, or G70/G71)       *)
(*   [c|->"AD", d, ap]        aperture definition, ap a descriptor          *)
(*   [c|->"SEL", d]           aperture selection  (Dnn, G54Dnn)            *)
(*   [c|->"CO", f, x, y, i, j, o]  coordinate block: function f            *)
(*        ("", "G01", "G02", "G03"), coordinates, offsets,                 *)
(*        operation o ("", "D01", "D02", "D03")                            *)
(*   [c|->"REG", on]  [c|->"QUAD", m]  [c|->"LP", pol]                     *)
(*   [c|->"NOP"]              comment, unknown command, name, end of file  *)
(*                                                                         *)
(* Deliberate deviations of this reader from the Gerber specification,     *)
(* kept here because the code documents them:                              *)
(*  - after an arc inside a region interpolation falls back to linear      *)
(*    (ArcResetsInRegion), as gerbv does;                                  *)
(*  - the end-of-file command does not stop reading (NOP).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

None == <<>>
Or(opt, dflt) == IF opt = <<>> THEN dflt ELSE opt[1]

\* aperture descriptor: shape, sizes, hole (<<>>, <<diameter>> or
\* <<width, height>>), vertices, rotation
NoAp == [sh |-> "-", s |-> <<>>, h |-> <<>>, n |-> 0, rot |-> 0]

GInit == [ x |-> 0, y |-> 0, op |-> "D02", ap |-> 0, interp |-> "linear",
           dir |-> "clockwise", pol |-> "dark", region |-> FALSE,
           quad |-> "multi-quadrant", contour |-> <<>>, aps |-> <<>>,
           units |-> "inch", img |-> <<>> ]

\* --- aperture table: a sequence of <<code, descriptor>>, latest last -----
Lookup(aps, d) ==
  LET ks == {k \in 1..Len(aps) : aps[k][1] = d}
  IN  IF ks = {} THEN NoAp ELSE aps[CHOOSE k \in ks : \A m \in ks : m <= k][2]
Defined(g, d) == \E k \in 1..Len(g.aps) : g.aps[k][1] = d

\* --- arc centres ---------------------------------------------------------
Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Dot(a, b)   == a[1] * b[1] + a[2] * b[2]
Sub(a, b)   == <<a[1] - b[1], a[2] - b[2]>>
Sq(a)       == Dot(a, a)

\* sweep from vector a to vector b in direction dir is at most 90 degrees
QuarterSweep(a, b, dir) ==
  /\ Dot(a, b) >= 0
  /\ IF dir = "counterclockwise" THEN Cross(a, b) >= 0 ELSE Cross(a, b) <= 0

Factors == << <<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>> >>
Candidate(s, ij, k) == <<s[1] + Factors[k][1] * ij[1], s[2] + Factors[k][2] * ij[2]>>
ValidCentre(s, e, ij, dir, k) ==
  LET c == Candidate(s, ij, k)
  IN  /\ Sq(Sub(s, c)) = Sq(Sub(e, c))
      /\ Sq(Sub(s, c)) > 0
      /\ QuarterSweep(Sub(s, c), Sub(e, c), dir)
ValidCentres(s, e, ij, dir) ==
  {Candidate(s, ij, k) : k \in {n \in 1..4 : ValidCentre(s, e, ij, dir, n)}}

\* a single-quadrant arc is well formed when its centre is determined
Centre(g, s, e, ij) ==
  IF g.quad = "multi-quadrant" THEN <<s[1] + ij[1], s[2] + ij[2]>>
  ELSE LET cs == ValidCentres(s, e, ij, g.dir)
       IN  IF cs = {} THEN <<s[1] + ij[1], s[2] + ij[2]>> ELSE CHOOSE c \in cs : TRUE

\* --- graphic objects -----------------------------------------------------
Seg(g, s, e, ij) ==
  IF g.interp = "linear" THEN [k |-> "line", s |-> s, e |-> e]
  ELSE [k |-> "arc", s |-> s, e |-> e, ctr |-> Centre(g, s, e, ij),
        dir |-> g.dir, q |-> g.quad]
Draw(g, s, e, ij) ==
  Seg(g, s, e, ij) @@ [ap |-> Lookup(g.aps, g.ap), pol |-> g.pol, u |-> g.units]
Flash(g, p) ==
  [k |-> "flash", p |-> p, ap |-> Lookup(g.aps, g.ap), pol |-> g.pol, u |-> g.units]
CloseContour(g) ==
  IF g.contour = <<>> THEN g
  ELSE [g EXCEPT !.img = Append(@, [k |-> "region", segs |-> g.contour,
                                    pol |-> g.pol, u |-> g.units]),
                 !.contour = <<>>]

\* --- commands ------------------------------------------------------------
SetFunction(g, f) ==
  IF f = "G01" THEN [g EXCEPT !.interp = "linear"]
  ELSE IF f = "G02" THEN [g EXCEPT !.interp = "arc", !.dir = "clockwise"]
  ELSE IF f = "G03" THEN [g EXCEPT !.interp = "arc", !.dir = "counterclockwise"]
  ELSE g

OnlyFunction(cm) == cm.f # "" /\ cm.x = <<>> /\ cm.y = <<>> /\ cm.i = <<>>
                    /\ cm.j = <<>> /\ cm.o = ""

ArcResetsInRegion(g) == [g EXCEPT !.interp = "linear"]

Interpolate(g, e, ij) ==       \* D01
  LET s == <<g.x, g.y>>
      drawn == IF g.region THEN [g EXCEPT !.contour = Append(@, Seg(g, s, e, ij))]
               ELSE [g EXCEPT !.img = Append(@, Draw(g, s, e, ij))]
  IN IF g.region /\ g.interp = "arc" THEN ArcResetsInRegion(drawn) ELSE drawn
Move(g) == IF g.region THEN CloseContour(g) ELSE g             \* D02
FlashAt(g, p) == [g EXCEPT !.img = Append(@, Flash(g, p))]     \* D03

Coord(g0, cm) ==
  LET g1 == SetFunction(g0, cm.f)
  IN IF OnlyFunction(cm) THEN g1
     ELSE LET g  == IF cm.o = "" THEN g1 ELSE [g1 EXCEPT !.op = cm.o]
              e  == <<Or(cm.x, g.x), Or(cm.y, g.y)>>
              ij == <<Or(cm.i, 0), Or(cm.j, 0)>>
              h  == CASE g.op = "D01" -> Interpolate(g, e, ij)
                      [] g.op = "D02" -> Move(g)
                      [] OTHER        -> FlashAt(g, e)
          IN [h EXCEPT !.x = e[1], !.y = e[2]]

Step(g, cm) ==
  CASE cm.c = "MO"   -> [g EXCEPT !.units = cm.u]
    [] cm.c = "AD"   -> [g EXCEPT !.aps = Append(@, <<cm.d, cm.ap>>)]
    [] cm.c = "SEL"  -> [g EXCEPT !.ap = cm.d]
    [] cm.c = "CO"   -> Coord(g, cm)
    [] cm.c = "REG"  -> IF cm.on THEN [g EXCEPT !.region = TRUE]
                        ELSE [CloseContour(g) EXCEPT !.region = FALSE]
    [] cm.c = "QUAD" -> [g EXCEPT !.quad = cm.m]
    [] cm.c = "LP"   -> [g EXCEPT !.pol = cm.pol]
    [] OTHER         -> g

RECURSIVE Run(_, _)
Run(g, prog) == IF prog = <<>> THEN g ELSE Run(Step(g, Head(prog)), Tail(prog))

\* --- well-formedness of a command in a state -----------------------------
OpOf(g, cm) == IF cm.o = "" THEN g.op ELSE cm.o
WellFormed(g, cm) ==
  CASE cm.c = "SEL" -> Defined(g, cm.d) /\ ~g.region
    [] cm.c = "REG" -> cm.on # g.region
    [] cm.c \in {"LP", "AD", "MO"} -> ~g.region
    [] cm.c = "CO" ->
         LET g1 == SetFunction(g, cm.f)
             o  == OpOf(g, cm)
             s  == <<g.x, g.y>>
             e  == <<Or(cm.x, g.x), Or(cm.y, g.y)>>
             ij == <<Or(cm.i, 0), Or(cm.j, 0)>>
         IN OnlyFunction(cm) \/
            /\ o = "D03" => ~g.region
            /\ (o # "D02" /\ ~g.region) => Defined(g, g.ap)
            /\ (cm.i # <<>> \/ cm.j # <<>>) => o = "D01" /\ g1.interp = "arc"
            /\ (o = "D01" /\ g1.interp = "arc") =>
                 IF g.quad = "multi-quadrant"
                 THEN LET c == <<s[1] + ij[1], s[2] + ij[2]>>
                      IN Sq(Sub(s, c)) > 0 /\ Sq(Sub(s, c)) = Sq(Sub(e, c))
                 ELSE /\ ij[1] >= 0 /\ ij[2] >= 0 /\ s # e
                      /\ ValidCentres(s, e, ij, g1.dir) # {}
    [] OTHER -> TRUE
=============================================================================
