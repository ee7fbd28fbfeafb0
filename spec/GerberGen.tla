------------------------------ MODULE GerberGen ------------------------------
(* Random walks of the reader's state machine with a rich alphabet, used   *)
(* with TLC -simulate: every walk is a well-formed program, printed when it *)
(* reaches its length and replayed through the implementation.             *)
EXTENDS Gerber, TLC, Json, Randomization

CONSTANTS Depth, Grid, FullStart, WithHoles
VARIABLES g, hist, done
vars == <<g, hist, done>>

GridDef == {-9, -5, -4, 0, 3, 5, 8, 12}
A(sh, s, h, n, rot) == [sh |-> sh, s |-> s, h |-> h, n |-> n, rot |-> rot]
Plain == { A("C", <<10>>, <<>>, 0, 0), A("C", <<7>>, <<>>, 0, 0), A("R", <<20, 10>>, <<>>, 0, 0),
           A("R", <<6, 14>>, <<>>, 0, 0), A("O", <<30, 12>>, <<>>, 0, 0), A("O", <<12, 30>>, <<>>, 0, 0),
           A("P", <<40>>, <<>>, 6, 0), A("P", <<16>>, <<>>, 3, 30), A("P", <<16>>, <<>>, 5, 0), A("P", <<25>>, <<>>, 8, 45) }
Holed == { A("C", <<10>>, <<4>>, 0, 0), A("C", <<16>>, <<5, 3>>, 0, 0), A("R", <<20, 10>>, <<4>>, 0, 0),
           A("R", <<20, 10>>, <<6, 3>>, 0, 0), A("O", <<30, 12>>, <<5>>, 0, 0), A("O", <<30, 12>>, <<4, 5>>, 0, 0),
           A("P", <<40>>, <<8>>, 6, 15), A("P", <<40>>, <<6, 9>>, 7, 20) }
Aps == IF WithHoles THEN Plain \cup Holed ELSE Plain
Codes == {10, 11, 12, 13, 57, 100, 999}

Ring == { <<5,0>>, <<-5,0>>, <<0,5>>, <<0,-5>>, <<3,4>>, <<3,-4>>, <<-3,4>>, <<-3,-4>>,
          <<4,3>>, <<4,-3>>, <<-4,3>>, <<-4,-3>> }
Abs(n) == IF n < 0 THEN -n ELSE n
Opt1(n) == {<<>>, <<n>>}
CO(f, x, y, i, j, o) == [c |-> "CO", f |-> f, x |-> x, y |-> y, i |-> i, j |-> j, o |-> o]

\* the chosen parameters are drawn once per step
Pick(S) == RandomElement(S)
ArcCmd(v, w, d, omit) ==
  LET s == <<g.x, g.y>>
      c == <<s[1] + v[1], s[2] + v[2]>>
      e == <<c[1] + w[1], c[2] + w[2]>>
      single == g.quad = "single-quadrant"
      i == IF single THEN Abs(v[1]) ELSE v[1]
      j == IF single THEN Abs(v[2]) ELSE v[2]
      f == IF d = "clockwise" THEN "G02" ELSE "G03"
      ff == IF g.interp = "arc" /\ g.dir = d /\ omit > 1 THEN "" ELSE f
  IN CO(ff, IF e[1] = g.x /\ omit > 0 THEN <<>> ELSE <<e[1]>>,
        IF e[2] = g.y /\ omit > 0 THEN <<>> ELSE <<e[2]>>,
        IF i = 0 /\ omit > 1 THEN <<>> ELSE <<i>>,
        IF j = 0 /\ omit > 1 THEN <<>> ELSE <<j>>,
        IF g.op = "D01" /\ omit = 3 THEN "" ELSE "D01")
PointCmd(f, x, y, mx, o) ==
  LET o1 == IF o = g.op /\ mx % 2 = 1 THEN "" ELSE o
      m  == mx \div 2
  IN CO(f, IF m = 1 THEN <<>> ELSE <<x>>, IF m = 2 THEN <<>> ELSE <<y>>, <<>>, <<>>, o1)

\* r, fk: random numbers, bound by the caller (LET would draw them again)
NextCmd(r, fk) ==
  LET f == <<"", "", "", "G01", "G02", "G03">>[fk]
      lin == IF g.interp = "arc" THEN "G01" ELSE (IF fk < 4 THEN "" ELSE "G01")
  IN CASE r <= 26 -> PointCmd(lin, Pick(Grid), Pick(Grid), Pick(0..7), "D01")
       [] r <= 40 -> PointCmd(f, Pick(Grid), Pick(Grid), Pick(0..7), "D02")
       [] r <= 52 -> PointCmd(f, Pick(Grid), Pick(Grid), Pick(0..7), "D03")
       [] r <= 70 -> ArcCmd(Pick(Ring), Pick(Ring), Pick({"clockwise", "counterclockwise"}), Pick(0..3))
       [] r <= 74 -> CO(Pick({"G01", "G02", "G03"}), <<>>, <<>>, <<>>, <<>>, "")
       [] r <= 77 -> CO("", <<>>, <<>>, <<>>, <<>>, Pick({"D01", "D02", "D03"}))
       [] r <= 84 -> [c |-> "REG", on |-> ~g.region]
       [] r <= 87 -> [c |-> "QUAD", m |-> Pick({"multi-quadrant", "single-quadrant"})]
       [] r <= 91 -> [c |-> "LP", pol |-> Pick({"dark", "clear"})]
       [] r <= 93 -> [c |-> "AD", d |-> Pick(Codes), ap |-> Pick(Aps)]
       [] r <= 98 -> [c |-> "SEL", d |-> Pick(Codes)]
       [] OTHER   -> [c |-> "NOP"]

\* an aperture much like a
Twin(a, k) ==
  CASE k = 1 /\ Len(a.s) = 2 -> [a EXCEPT !.s = <<a.s[2], a.s[1]>>]
    [] k = 2 /\ a.sh = "P" -> [a EXCEPT !.rot = -a.rot]
    [] k = 3 -> [a EXCEPT !.h = <<>>]
    [] k = 4 /\ a.sh \in {"R", "O"} -> [a EXCEPT !.sh = IF a.sh = "R" THEN "O" ELSE "R"]
    [] k = 5 /\ a.sh = "P" -> [a EXCEPT !.n = a.n + 1]
    [] k <= 5 -> a
    [] OTHER -> Pick(Aps)
Prologue(a, k) == << [c |-> "MO", u |-> Pick({"inch", "metric"})],
               [c |-> "AD", d |-> 10, ap |-> a], [c |-> "AD", d |-> 11, ap |-> Twin(a, k)],
               [c |-> "AD", d |-> 12, ap |-> Pick(Aps)], [c |-> "SEL", d |-> 10] >>
            \o (IF FullStart THEN << CO("G01", <<0>>, <<0>>, <<>>, <<>>, "D02") >> ELSE <<>>)

Init == hist = <<>> /\ g = GInit /\ done = FALSE
Finish == IF g.region THEN Append(hist, [c |-> "REG", on |-> FALSE]) ELSE hist
\* at most 12 tries per step; an ill-formed draw is a stuttering step
Next ==
  \/ /\ hist = <<>> /\ \E a \in {Pick(Aps)} : \E k \in {Pick(1..12)} : \E p \in {Prologue(a, k)} : hist' = p /\ g' = Run(GInit, p)
     /\ UNCHANGED done
  \/ /\ ~done /\ Len(hist) < Depth /\ hist # <<>>
     /\ \E k \in 1..12 : \E r \in {Pick(1..100)} : \E fk \in {Pick(1..6)} : \E cm \in {NextCmd(r, fk)} :
          /\ WellFormed(g, cm)
          /\ g' = Step(g, cm) /\ hist' = Append(hist, cm) /\ done' = FALSE
  \/ /\ ~done /\ Len(hist) >= Depth
     /\ PrintT("P " \o ToJson(Finish))
     /\ done' = TRUE /\ UNCHANGED <<g, hist>>
Spec == Init /\ [][Next]_vars
Connected == /\ \A k \in 1..Len(g.contour) - 1 : g.contour[k].e = g.contour[k + 1].s
             /\ g.contour # <<>> => g.contour[Len(g.contour)].e = <<g.x, g.y>>
ContourOnlyInRegion == ~g.region => g.contour = <<>>
=============================================================================
