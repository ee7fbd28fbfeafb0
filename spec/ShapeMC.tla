------------------------------ MODULE ShapeMC ------------------------------
(* Histories of changes of the straight-edged objects, with their corners;   *)
(* and pairs of objects, with equivalence as a relation.                     *)
EXTENDS BBoxMC, Shape
CONSTANT Pairs

Poly(n, r) == [Flash("polygon", <<M(10), n>>) EXCEPT !.rot = r]
Starts2 ==
  { Ln(P(0, 0), P(10, -6), ApR), Ln(P(4, 4), P(-10, 4), ApR), Ln(P(0, 0), P(0, 30), ApR), Ln(P(1, 1), P(41, 2), ApP),
    Ln(P(-5, 3), P(-5, -40), Ap("polygon", <<M(10), 8>>)), Ln(P(-5, 3), P(20, 28), Ap("polygon", <<M(10), 4>>)),
    Obj("outline", <<>>, <<>>, Unrotated, Tri),
    Obj("group", <<P(0, 0)>>, <<>>, Unrotated, << Flash("circle", <<M(8)>>), [Flash("rectangle", <<M(20), M(6)>>) EXCEPT !.pts = <<P(8, 8)>>, !.rot = <<4, 3, 5>>] >>) }
  \cup { Flash(k, <<M(20), M(10)>>) : k \in {"rectangle", "diamond"} }
  \cup { Flash("chamfer", <<M(20), M(12), M(2)>>), [Flash("chamfer", <<M(20), M(12), M(2)>>) EXCEPT !.dir = "0100", !.rot = <<0, 1, 1>>],
         Poly(6, Unrotated), Poly(5, <<4, 3, 5>>), Poly(3, <<0, -1, 1>>) }
Statics2 ==
  { Ln(P(0, 0), P(x, y), ap) : x \in {-27, 0, 12, 40}, y \in {-30, 0, 4, 9}, ap \in {ApR, Ap("rectangle", <<M(2), M(20)>>)} }
  \cup { [Ln(P(3, -1), P(x, y), ap) EXCEPT !.sub[1].rot = r] : x \in {-27, 3, 40}, y \in {-30, -1, 29}, r \in {Unrotated, <<4, 3, 5>>, <<0, 1, 1>>},
           ap \in {Ap("polygon", <<M(10), n>>) : n \in {3, 4, 5, 6, 8, 12}} }
  \cup { [Flash(k, <<M(w), M(h)>>) EXCEPT !.rot = r] : k \in {"rectangle", "diamond"}, w \in {4, 20}, h \in {4, 14, 20}, r \in Rots }
  \cup { [Flash("chamfer", <<M(w), M(h), M(c)>>) EXCEPT !.rot = r, !.dir = d] : w \in {10, 20}, h \in {14, 20}, c \in {1, 4}, r \in Rots,
           d \in {"", "1000", "0100", "0010", "0001", "1010", "0111", "0000"} }
  \cup { Poly(n, r) : n \in {3, 4, 5, 6, 8, 12}, r \in Rots }

\* objects that are compared, with themselves and each other
Parts2 == { Flash("circle", <<M(8)>>), Flash("circle", <<M(12)>>), [Flash("circle", <<M(8)>>) EXCEPT !.q = "d"], [Flash("circle", <<M(8)>>) EXCEPT !.q = "w"],
            [Flash("circle", <<M(8)>>) EXCEPT !.q = "h"],
            Flash("rectangle", <<M(8), M(12)>>), Flash("rectangle", <<M(12), M(8)>>), [Flash("rectangle", <<M(8), M(12)>>) EXCEPT !.rot = <<0, 1, 1>>],
            [Flash("rectangle", <<M(8), M(12)>>) EXCEPT !.q = "d"], [Flash("rectangle", <<M(8), M(12)>>) EXCEPT !.q = "w"],
            [Flash("rectangle", <<M(8), M(12)>>) EXCEPT !.q = "h"],
            Poly(6, Unrotated), Poly(5, Unrotated), Poly(6, <<4, 3, 5>>), [Poly(6, Unrotated) EXCEPT !.sz[1] = M(12)], [Poly(6, Unrotated) EXCEPT !.q = "d"],
            [Poly(6, Unrotated) EXCEPT !.q = "h"],
            Ln(P(0, 0), P(20, 0), ApC), Ln(P(20, 0), P(0, 0), ApC), Ln(P(0, 0), P(20, 5), ApC), Ln(P(2, 0), P(20, 0), ApC) }
Outl(ss) == Obj("outline", <<>>, <<>>, Unrotated, ss)
Tri2 == << Ln(P(0, 0), P(20, 0), ApC), Ln(P(20, 0), P(10, 15), ApC), Ln(P(10, 15), P(0, 0), ApC) >>
Quad == << Ln(P(0, 0), P(20, 0), ApC), Ln(P(20, 0), P(10, 14), ApC), Ln(P(10, 14), P(5, 9), ApC), Ln(P(5, 9), P(0, 0), ApC) >>
\* an outline that goes on where another one ends
GoesOn(ss) == LET c == ss[1].pts[1] IN ss \o << Ln(c, <<c[1] - M(5), c[2] + M(5)>>, ApC), Ln(<<c[1] - M(5), c[2] + M(5)>>, c, ApC) >>
Outlines == { Outl(Tri), Outl(Tri2), Outl(Quad), Outl(<<Tri[2], Tri[3], Tri[1]>>), Outl(GoesOn(Tri)), Outl(GoesOn(Quad)) }
Grp(ss) == Obj("group", <<P(0, 0)>>, <<>>, Unrotated, ss)
Clear(x) == [x EXCEPT !.dir = "clear"]
Groups == { Grp(<<a, b>>) : a \in {Flash("circle", <<M(8)>>), Flash("rectangle", <<M(8), M(12)>>), Poly(6, Unrotated)},
                            b \in {Flash("circle", <<M(8)>>), Moved(Flash("circle", <<M(8)>>), P(1, 0)), Clear(Flash("circle", <<M(8)>>)), Outl(Tri), Outl(Tri2), Outl(Quad), Outl(GoesOn(Tri))} }
          \cup { Grp(<<Flash("circle", <<M(8)>>)>>), Grp(<<Clear(Flash("circle", <<M(8)>>))>>), Grp(<<Poly(5, Unrotated), Poly(6, Unrotated), Flash("circle", <<M(8)>>)>>) }
Shifts == {P(0, 0), P(10, -4), P(-3, 0), P(0, 1)}
\* one of every kind, with the same numbers
Kinds == { Flash(k, <<M(12)>>) : k \in {"circle", "rbutterfly", "sbutterfly", "srdonut", "donut", "hexdonut", "drill", "polygon"} }
         \cup { Flash(k, <<M(20), M(10)>>) : k \in {"rectangle", "obround", "diamond", "ellipse"} }
         \cup { Flash(k, <<M(20), M(12), M(2)>>) : k \in {"chamfer", "roundrect"} }
         \cup { Obj("slot", <<P(0, 0), P(20, 0)>>, <<M(8)>>, Unrotated, <<>>), Ln(P(0, 0), P(20, 0), ApC), Ln(P(0, 0), P(20, 0), ApR),
                 Obj("region", <<>>, <<>>, Unrotated, Tri), Outl(Tri),
                 Arc(P(5, 0), P(0, 5), P(0, 0), 1, "clockwise", "multi-quadrant", ApC), Arc(P(5, 0), P(0, 5), P(0, 0), 1, "counterclockwise", "multi-quadrant", ApC) }
Grouped == {Parts2 \cup Outlines, Groups, Kinds}

VARIABLE pair
InitPair == /\ \E g \in Grouped : \E a \in g : \E b \in g : \E v \in Shifts : \E w \in Shifts :
                 pair = [a |-> Moved(a, v), b |-> b, v |-> w]
            /\ init = 0 /\ o = 0 /\ memo = <<>> /\ hist = <<>>
InitHist == pair = <<>> /\ init \in (IF Static THEN Statics2 ELSE Starts2) /\ o = init /\ memo = <<>> /\ hist = <<>>
Init2 == IF Pairs THEN InitPair ELSE InitHist
Next2 == ~Pairs /\ Next /\ UNCHANGED pair
Spec2 == Init2 /\ [][Next2]_<<vars, pair>>

\* --- design invariants -----------------------------------------------------
H == ~Pairs /\ Cornered(o)
SameAround(a, b) == \A k \in 1..4 : AbsB(a[k] - b[k]) <= 8
ExactBox(x) == \/ x.k = "rectangle" \/ (x.k \in {"chamfer", "diamond"} /\ ~Turned(x)) \/ (x.k = "line" /\ x.sub[1].k = "rectangle")
CornersSpanBox == H /\ ExactBox(o) => SameAround(OfPoints(Points(o)), Box(o))
CornersInBox == H => LET c == OfPoints(Points(o)) b == Box(o) IN c[1] >= b[1] - 8 /\ c[2] <= b[2] + 8 /\ c[3] >= b[3] - 8 /\ c[4] <= b[4] + 8
Convex == H /\ o.k \in Straight => AreCorners(Points(o), Points(o), 0, 2)
MovesAlong == H => \A v \in {P(10, 4), P(-300, 7)} : Points(Moved(o, v)) = [i \in 1..Len(Points(o)) |-> Add(Points(o)[i], v)]
UnitsAside == H => Points(InUnits(o, "metric")) = Points(o)
Minus(v) == <<-v[1], -v[2]>>
Symm == Pairs => (Equiv(pair.a, pair.b, pair.v) <=> Equiv(pair.b, pair.a, Minus(pair.v)))
Reflexive == Pairs => Equiv(Moved(pair.a, pair.v), pair.a, pair.v)
OneShift == Pairs /\ Equiv(pair.a, pair.b, pair.v) => \A w \in Shifts : w # pair.v => ~Equiv(pair.a, pair.b, w)
SameBox == Pairs /\ pair.a.k # "line" /\ Equiv(pair.a, pair.b, pair.v) => Box(pair.a) = Box(Moved(pair.b, pair.v))
Chain == Pairs /\ Equiv(pair.a, pair.b, pair.v) => \A w \in Shifts : Equiv(Moved(pair.a, w), pair.b, Add(pair.v, w))
EmitPair == (Emit /\ Pairs /\ (Thin = 1 \/ Equiv(pair.a, pair.b, pair.v) \/ RandomElement(IF pair.v[1] > 100000 THEN {} ELSE 1..Thin) = 1))
            => PrintT("P " \o ToJson(pair))
EmitHist == Pairs \/ EmitIt
=============================================================================
