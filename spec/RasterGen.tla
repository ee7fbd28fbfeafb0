------------------------------ MODULE RasterGen ------------------------------
(* Random scenes (TLC -simulate): one to four layers of random objects, with  *)
(* colours, and the part of the board that is shown.                          *)
EXTENDS Raster, TLC, Json
VARIABLES scene, n, done
vars == <<scene, n, done>>
Pick(S) == RandomElement(IF n > 1000 THEN {} ELSE S)
Co == {60 * k - 830 : k \in 0..28}          \* positions
Sz == {20, 45, 90, 130, 180, 270, 400, 560}
A(k, pts, sz) == [k |-> k, pts |-> pts, sz |-> sz, hole |-> <<>>, n |-> 0, rot |-> 0, dir |-> "", q |-> "", sub |-> <<>>, pol |-> "dark"]
Pt(z) == <<Pick(Co) + Pick(0..9), Pick(Co) + Pick(0..9)>>
Units == { <<5, 0>>, <<-5, 0>>, <<0, 5>>, <<0, -5>>, <<3, 4>>, <<3, -4>>, <<-3, 4>>, <<-3, -4>>, <<4, 3>>, <<4, -3>>, <<-4, 3>>, <<-4, -3>> }
Ray(v, r) == <<v[1] * r, v[2] * r>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Dirs == {"clockwise", "counterclockwise"}
Hl(o, r, s) == CASE r <= 5 -> o                                              \* a hole that fits
                 [] r <= 8 -> [o EXCEPT !.hole = <<(s * Pick({3, 5, 7})) \div 10>>]
                 [] OTHER  -> [o EXCEPT !.hole = <<(s * Pick({3, 6})) \div 10, (s * Pick({3, 5, 6})) \div 10>>]
Less(a, b) == IF a < b THEN a ELSE b
ArcAt(c, v, w, r, d) == [A("arc", <<Add(c, Ray(v, r)), Add(c, Ray(w, r)), c>>, <<0>>) EXCEPT !.dir = d, !.q = "multi-quadrant"]
SegTo(p) == IF Pick(1..3) = 1
            THEN The({ [A("arc", <<p, Add(Add(p, Ray(v, -r)), Ray(w, r)), Add(p, Ray(v, -r))>>, <<0>>) EXCEPT !.dir = d, !.q = "multi-quadrant"] :
                       v \in {Pick(Units)}, w \in {Pick(Units)}, r \in {Pick({15, 35, 60})}, d \in {Pick(Dirs)} })
            ELSE A("line", <<p, Pt(0)>>, <<0>>)
RECURSIVE Walk(_, _)
Walk(ss, k) == IF k = 0 THEN ss ELSE The({ Walk(Append(x, SegTo(x[Len(x)].pts[2])), k - 1) : x \in {ss} })
Straight(ps) == [k \in 1..Len(ps) |-> A("line", <<ps[k], ps[(k % Len(ps)) + 1]>>, <<0>>)]
Poly(k) == [A("contour", <<>>, <<>>) EXCEPT !.sub = The({Straight(ps) : ps \in {[j \in 1..k |-> Pt(j)]}})]
ArcN(w) == The({ [ArcAt(c, v1, v2, r, d) EXCEPT !.sz = <<w>>] :
                 c \in {Pt(0)}, v1 \in {Pick(Units)}, v2 \in {Pick(Units)}, r \in {Pick({15, 30, 60, 80})}, d \in {Pick(Dirs)} })
Basic(r) ==
  CASE r <= 3  -> The({Hl(A("disc", <<Pt(0)>>, <<s>>), Pick(1..10), s) : s \in {Pick(Sz)}})
    [] r <= 6  -> The({Hl(A("rect", <<Pt(0)>>, <<s, t>>), Pick(1..10), Less(s, t)) : s \in {Pick(Sz)}, t \in {Pick(Sz)}})
    [] r <= 9  -> The({Hl(A("obround", <<Pt(0)>>, <<s, t>>), Pick(1..10), Less(s, t)) : s \in {Pick(Sz)}, t \in {Pick(Sz)}})
    [] r <= 12 -> The({[o EXCEPT !.n = Pick(3..9), !.rot = IF Len(o.hole) = 2 THEN 0 ELSE Pick({0, 15, 30, 45, 77, 210})] :
                       o \in {The({Hl(A("poly", <<Pt(0)>>, <<s>>), Pick(1..10), (s * 4) \div 10) : s \in {Pick(Sz)}})}})
    [] r <= 16 -> A("cap", <<Pt(0), Pt(1)>>, <<Pick(Sz)>>)
    [] r <= 19 -> A("sweep", <<Pt(0), Pt(1)>>, <<Pick(Sz), Pick(Sz)>>)
    [] r = 20  -> The({A(Pick({"cap", "sweep"}), <<p, IF Pick(1..3) = 1 THEN p ELSE Add(p, Pick({<<0, 400>>, <<-300, 0>>}))>>, <<Pick(Sz), Pick(Sz)>>) : p \in {Pt(0)}})
    [] r <= 24 -> ArcN(Pick(Sz))
    [] r <= 27 -> Poly(Pick(3..5))
    [] r <= 30 -> [A("contour", <<>>, <<>>) EXCEPT !.sub = Walk(<<SegTo(Pt(0))>>, Pick(1..4))]
    [] r = 31  -> [A("contour", <<>>, <<>>) EXCEPT !.sub = <<The({ArcAt(c, v, v, q, d) : c \in {Pt(0)}, v \in {Pick(Units)}, q \in {Pick({20, 40, 70})}, d \in {Pick(Dirs)}})>>]
    [] OTHER   -> A("slot", <<Pt(0), Pt(1)>>, <<Pick(Sz)>>)
Pol(o, r) == IF r <= 3 THEN [o EXCEPT !.pol = "clear"] ELSE o
Part(r) ==
  CASE r <= 3 -> A("disc", <<Pt(0)>>, <<Pick(Sz)>>)
    [] r <= 6 -> [A("poly", <<Pt(0)>>, <<Pick(Sz)>>) EXCEPT !.n = Pick(3..9), !.rot = Pick({0, 15, 45, 100})]
    [] OTHER  -> Poly(Pick(3..5))
RECURSIVE Parts(_)
Parts(k) == IF k = 0 THEN <<>> ELSE Append(Parts(k - 1), Pol(Part(Pick(1..9)), Pick(1..9)))
Object(r) == IF r <= 32 THEN Basic(r) ELSE [A("group", <<>>, <<>>) EXCEPT !.sub = Parts(Pick(1..4))]
Colour0(z) == <<Pick(0..255), Pick(0..255), Pick(0..255)>>
Layer0(z) == [objs |-> <<>>, invert |-> Pick(1..4) = 1, mirror |-> Pick(1..4) = 1, color |-> Colour0(0),
              alpha |-> Pick({100, 100, 100, 85, 50, 30, 0})]
Frame0(z) == [x |-> Pick(-1000..(-300)), y |-> Pick(-1000..(-300)), w |-> Pick(700..1900), h |-> Pick(700..1900)]

Init == scene = [layers |-> <<>>, frame |-> [x |-> 0, y |-> 0, w |-> 1, h |-> 1], bg |-> <<0, 0, 0>>] /\ n = 0 /\ done = FALSE
Next ==
  \/ /\ n = 0 /\ n' = Pick(2..14) /\ UNCHANGED done
     /\ scene' = [layers |-> <<Layer0(0)>>, frame |-> Frame0(0), bg |-> Colour0(0)]
  \/ /\ n > 1 /\ n' = n - 1 /\ UNCHANGED done
     /\ \E r \in {Pick(1..9)} : \E o \in {Pol(Object(Pick(1..36)), Pick(1..10))} :
          scene' = IF r = 1 /\ Len(scene.layers) < 4 /\ scene.layers[Len(scene.layers)].objs # <<>>
                   THEN [scene EXCEPT !.layers = Append(@, [Layer0(0) EXCEPT !.objs = <<o>>])]
                   ELSE [scene EXCEPT !.layers[Len(scene.layers)].objs = Append(@, o)]
  \/ /\ n = 1 /\ ~done /\ done' = TRUE /\ PrintT("P " \o ToJson(scene)) /\ UNCHANGED <<scene, n>>
Spec == Init /\ [][Next]_vars
=============================================================================
