------------------------------- MODULE RasterMC -------------------------------
(* Design check: different descriptions of one area never contradict each   *)
(* other, coverage is monotone in the margin, and painting obeys its laws.   *)
(* Every scene of up to MaxObj objects is emitted and rendered.              *)
EXTENDS Raster, TLC, Json
CONSTANTS MaxObj, EmitP
VARIABLES objs, pic
vars == <<objs, pic>>

A(k, pts, sz) == [k |-> k, pts |-> pts, sz |-> sz, hole |-> <<>>, n |-> 0, rot |-> 0, dir |-> "", q |-> "", sub |-> <<>>, pol |-> "dark"]
H(o, h) == [o EXCEPT !.hole = h]
R(s, e, c, d, dir) == [A("arc", <<s, e, c>>, <<d>>) EXCEPT !.dir = dir, !.q = "multi-quadrant"]
L(s, e) == A("line", <<s, e>>, <<0>>)
Ct(ss) == [A("contour", <<>>, <<>>) EXCEPT !.sub = ss]
Po(c, d, n, rot) == [A("poly", <<c>>, <<d>>) EXCEPT !.n = n, !.rot = rot]
G(ss) == [A("group", <<>>, <<>>) EXCEPT !.sub = ss]
Clear(o) == [o EXCEPT !.pol = "clear"]
C == "clockwise"
CC == "counterclockwise"

Catalog == {
  A("disc", << <<200, 200>> >>, <<160>>), H(A("disc", << <<160, 220>> >>, <<180>>), <<80>>), H(A("disc", << <<160, 220>> >>, <<200>>), <<110, 60>>),
  A("rect", << <<230, 180>> >>, <<200, 120>>), H(A("rect", << <<230, 180>> >>, <<200, 140>>), <<70>>),
  H(A("rect", << <<200, 200>> >>, <<300, 300>>), <<100, 160>>),
  A("obround", << <<220, 200>> >>, <<240, 100>>), H(A("obround", << <<150, 200>> >>, <<110, 260>>), <<60>>),
  Po(<<200, 200>>, 260, 3, 0), Po(<<200, 190>>, 260, 5, 20), H(Po(<<210, 200>>, 240, 6, 15), <<70>>),
  A("cap", << <<80, 80>>, <<320, 300>> >>, <<70>>), A("cap", << <<300, 120>>, <<300, 120>> >>, <<90>>),
  A("sweep", << <<100, 120>>, <<300, 260>> >>, <<100, 50>>), A("sweep", << <<200, 120>>, <<200, 300>> >>, <<70, 60>>),
  R(<<320, 200>>, <<200, 320>>, <<200, 200>>, 60, CC), R(<<320, 200>>, <<200, 320>>, <<200, 200>>, 60, C),
  R(<<290, 200>>, <<290, 200>>, <<200, 200>>, 60, C), R(<<200, 290>>, <<200, 290>>, <<200, 200>>, 60, CC),
  R(<<80, 200>>, <<272, 296>>, <<200, 200>>, 50, C),
  Ct(<< L(<<80, 80>>, <<320, 80>>), L(<<320, 80>>, <<320, 320>>), L(<<320, 320>>, <<200, 160>>), L(<<200, 160>>, <<80, 80>>) >>),
  Ct(<< L(<<100, 100>>, <<300, 100>>), R(<<300, 100>>, <<300, 300>>, <<300, 200>>, 0, CC), L(<<300, 300>>, <<100, 300>>) >>),
  Ct(<< L(<<100, 100>>, <<300, 100>>), R(<<300, 100>>, <<300, 300>>, <<300, 200>>, 0, C), L(<<300, 300>>, <<100, 300>>) >>),
  Ct(<< R(<<320, 200>>, <<320, 200>>, <<200, 200>>, 0, C) >>),
  G(<< A("rect", << <<200, 200>> >>, <<260, 180>>), Clear(A("disc", << <<160, 200>> >>, <<120>>)), A("disc", << <<160, 200>> >>, <<60>>) >>),
  [A("thermal", << <<200, 200>> >>, <<280, 180, 50>>) EXCEPT !.rot = 30] }

\* pairs of descriptions of the same area
Same == {
  << A("disc", << <<0, 0>> >>, <<160>>), Ct(<< R(<<80, 0>>, <<80, 0>>, <<0, 0>>, 0, C) >>) >>,
  << A("disc", << <<0, 0>> >>, <<160>>), Ct(<< R(<<80, 0>>, <<-80, 0>>, <<0, 0>>, 0, CC), R(<<-80, 0>>, <<80, 0>>, <<0, 0>>, 0, CC) >>) >>,
  << A("disc", << <<0, 0>> >>, <<160>>), A("cap", << <<0, 0>>, <<0, 0>> >>, <<160>>) >>,
  << A("disc", << <<0, 0>> >>, <<160>>), A("obround", << <<0, 0>> >>, <<160, 160>>) >>,
  << A("rect", << <<0, 0>> >>, <<160, 100>>), A("sweep", << <<0, 0>>, <<0, 0>> >>, <<160, 100>>) >>,
  << A("rect", << <<0, 0>> >>, <<160, 100>>), A("sweep", << <<-30, 0>>, <<30, 0>> >>, <<100, 100>>) >>,
  << A("rect", << <<0, 0>> >>, <<160, 100>>), Ct(<< L(<<-80, -50>>, <<-80, 50>>), L(<<-80, 50>>, <<80, 50>>), L(<<80, 50>>, <<80, -50>>) >>) >>,
  << A("rect", << <<0, 0>> >>, <<140, 140>>), Po(<<0, 0>>, 198, 4, 45) >>,
  << Po(<<0, 0>>, 198, 6, 10), Po(<<0, 0>>, 198, 6, 70) >>,
  << A("obround", << <<0, 0>> >>, <<160, 60>>), A("cap", << <<-50, 0>>, <<50, 0>> >>, <<60>>) >>,
  << A("obround", << <<0, 0>> >>, <<60, 160>>), A("cap", << <<0, 50>>, <<0, -50>> >>, <<60>>) >>,
  << A("obround", << <<0, 0>> >>, <<160, 60>>), Ct(<< L(<<-50, -30>>, <<50, -30>>), R(<<50, -30>>, <<50, 30>>, <<50, 0>>, 0, CC),
                                                      L(<<50, 30>>, <<-50, 30>>), R(<<-50, 30>>, <<-50, -30>>, <<-50, 0>>, 0, CC) >>) >>,
  << H(A("disc", << <<0, 0>> >>, <<160>>), <<80>>), R(<<60, 0>>, <<60, 0>>, <<0, 0>>, 40, C) >>,
  << H(A("disc", << <<0, 0>> >>, <<160>>), <<80>>), G(<< A("disc", << <<0, 0>> >>, <<160>>), Clear(A("disc", << <<0, 0>> >>, <<80>>)) >>) >>,
  << H(A("disc", << <<0, 0>> >>, <<160>>), <<80>>), G(<< R(<<60, 0>>, <<0, 60>>, <<0, 0>>, 40, C), R(<<60, 0>>, <<0, 60>>, <<0, 0>>, 40, CC) >>) >>,
  << H(A("disc", << <<0, 0>> >>, <<160>>), <<80>>),          \* a ring, cut open at one place
     Ct(<< R(<<80, 0>>, <<80, 0>>, <<0, 0>>, 0, CC), L(<<80, 0>>, <<40, 0>>), R(<<40, 0>>, <<40, 0>>, <<0, 0>>, 0, C), L(<<40, 0>>, <<80, 0>>) >>) >>,
  << R(<<60, 0>>, <<-36, 48>>, <<0, 0>>, 40, CC), R(<<-36, 48>>, <<60, 0>>, <<0, 0>>, 40, C) >>,
  << A("sweep", << <<-40, -20>>, <<40, 30>> >>, <<60, 40>>), Ct(<< L(<<-70, -40>>, <<-10, -40>>), L(<<-10, -40>>, <<70, 10>>), L(<<70, 10>>, <<70, 50>>),
     L(<<70, 50>>, <<10, 50>>), L(<<10, 50>>, <<-70, 0>>) >>) >>,
  << [A("thermal", << <<0, 0>> >>, <<160, 80, 20>>) EXCEPT !.rot = 0],
     G(<< H(A("disc", << <<0, 0>> >>, <<160>>), <<80>>), Clear(A("rect", << <<0, 0>> >>, <<20, 200>>)), Clear(A("rect", << <<0, 0>> >>, <<200, 20>>)) >>) >>,
  << [A("thermal", << <<0, 0>> >>, <<160, 80, 20>>) EXCEPT !.rot = 30], [A("thermal", << <<0, 0>> >>, <<160, 80, 20>>) EXCEPT !.rot = 120] >> }
Pts0 == { <<x, y>> : x \in {7 * k - 105 : k \in 0..30}, y \in {9 * k - 108 : k \in 0..24} }
Contra(a, b) == {a, b} = {"in", "out"}
ASSUME \A pr \in Same : \A p \in Pts0 : ~Contra(Cover(pr[1], p, 3), Cover(pr[2], p, 3))
\* and each of them decides most points
Decided(o) == Cardinality({p \in Pts0 : Cover(o, p, 3) = "in"}) > 40 /\ Cardinality({p \in Pts0 : Cover(o, p, 3) = "out"}) > 40
ASSUME \A pr \in Same : Decided(pr[1]) /\ Decided(pr[2])

Moved(o, v) ==
  LET mv(x) == [x EXCEPT !.pts = [k \in 1..Len(@) |-> <<@[k][1] + v[1], @[k][2] + v[2]>>]]
  IN [mv(o) EXCEPT !.sub = [k \in 1..Len(@) |-> mv(@[k])]]
Turned180(o) ==
  LET tn(x) == [x EXCEPT !.pts = [k \in 1..Len(@) |-> <<-@[k][1], -@[k][2]>>], !.rot = (@ + 180)]
  IN [tn(o) EXCEPT !.sub = [k \in 1..Len(@) |-> tn(@[k])]]
Samples == { <<x, y>> : x \in {35 * k + 15 : k \in 0..11}, y \in {33 * k + 10 : k \in 0..11} }
ASSUME \A o \in Catalog : \A p \in Samples :
         LET a == Cover(o, p, 12) IN
         /\ a = Cover(Moved(o, <<-77, 130>>), <<p[1] - 77, p[2] + 130>>, 12)
         /\ a # "edge" => Cover(o, p, 5) = a                                \* monotone
         /\ ~Contra(a, Cover(Turned180(o), <<-p[1], -p[2]>>, 12))

\* --- painting: a picture grows, object by object -------------------------------
Few == { <<x, y>> : x \in {95 * k + 15 : k \in 0..3}, y \in {87 * k + 40 : k \in 0..3} }
Init == objs = <<>> /\ pic = [p \in Few |-> "off"]
Next == /\ Len(objs) < MaxObj
        /\ \E o \in Catalog : \E pol \in {"dark", "clear"} :
             /\ (objs = <<>> => pol = "dark")
             /\ objs' = Append(objs, [o EXCEPT !.pol = pol])
             /\ pic' = [p \in Few |-> Paint(pic[p], objs'[Len(objs')], p, 6)]
Spec == Init /\ [][Next]_vars
LayerOf(os, inv) == [objs |-> os, invert |-> inv, mirror |-> FALSE, color |-> <<255, 255, 255>>, alpha |-> 100]
\* the picture grown step by step is the layer's; inverting flips it
SameAsLayer == \A p \in Few : /\ pic[p] = Point(LayerOf(objs, FALSE), p, 6)
                              /\ Flip(pic[p]) = Point(LayerOf(objs, TRUE), p, 6)
\* the last object decides, painting it twice changes nothing
LastDecides == objs # <<>> => \A p \in Few :
  LET o == objs[Len(objs)] c == Cover(o, p, 6)
  IN /\ c = "in" => pic[p] = (IF o.pol = "dark" THEN "on" ELSE "off")
     /\ Paint(pic[p], o, p, 6) = pic[p]
EmitIt == EmitP => PrintT("P " \o ToJson(objs'))
=============================================================================
