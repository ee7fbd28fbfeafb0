------------------------------- MODULE BBoxMC -------------------------------
(* Histories of queries and changes of every kind of graphic object, with    *)
(* the memo protocol of gerber/primitives.py: a query stores the box, every  *)
(* change must drop it.  Forget: changes that do not drop it (vacuity run).  *)
EXTENDS BBox, TLC, Json
CONSTANTS Depth, Forget, Emit, Static, Thin
VARIABLES init, o, memo, hist
vars == <<init, o, memo, hist>>

M(n) == n * Mil
P(x, y) == <<M(x), M(y)>>
Obj(k, pts, sz, rot, sub) == [k |-> k, pts |-> pts, sz |-> sz, rot |-> rot, sub |-> sub, dir |-> "", q |-> "", r |-> 0, u |-> "inch"]
Flash(k, sz) == Obj(k, <<P(2, -3)>>, sz, Unrotated, <<>>)
Ap(k, sz) == Obj(k, <<P(0, 0)>>, sz, Unrotated, <<>>)
ApC == Ap("circle", <<M(8)>>)
ApR == Ap("rectangle", <<M(12), M(4)>>)
ApO == Ap("obround", <<M(6), M(20)>>)
ApP == Ap("polygon", <<M(10)>>)
Ln(s, e, a) == Obj("line", <<s, e>>, <<>>, Unrotated, <<a>>)
Arc(s, e, c, k, d, q, a) == [Obj("arc", <<s, e, c>>, <<>>, Unrotated, <<a>>) EXCEPT !.dir = d, !.q = q, !.r = M(5 * k)]
Ring == <<<<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-4, 3>>, <<-5, 0>>, <<-4, -3>>, <<-3, -4>>, <<0, -5>>, <<3, -4>>, <<4, -3>>>>
On(c, n, k) == P(c[1] + Ring[n][1] * k, c[2] + Ring[n][2] * k)
ArcOf(c, a, b, k, d, q, ap) == Arc(On(c, a, k), On(c, b, k), P(c[1], c[2]), k, d, q, ap)
Dirs == {"clockwise", "counterclockwise"}
Quads == {"single-quadrant", "multi-quadrant"}
Rots == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<4, 3, 5>>, <<3, 4, 5>>, <<-3, 4, 5>>, <<-4, 3, 5>>,
         <<-4, -3, 5>>, <<-3, -4, 5>>, <<3, -4, 5>>, <<4, -3, 5>>}
Tri == << Ln(P(0, 0), P(20, 0), ApC), Ln(P(20, 0), P(10, 14), ApC), Ln(P(10, 14), P(0, 0), ApC) >>
Bow == << Ln(P(5, 0), P(0, 5), ApC), ArcOf(<<0, 0>>, 4, 1, 1, "counterclockwise", "multi-quadrant", ApC) >>
Starts ==
  { Ln(P(0, 0), P(10, -6), ApC), Ln(P(4, 4), P(-10, 4), ApR), Ln(P(0, 0), P(0, 8), ApO), Ln(P(1, 1), P(7, 2), ApP),
    ArcOf(<<1, 2>>, 1, 5, 2, "counterclockwise", "multi-quadrant", ApC), ArcOf(<<0, 0>>, 3, 3, 2, "clockwise", "multi-quadrant", ApR),
    ArcOf(<<-3, 0>>, 12, 2, 1, "clockwise", "single-quadrant", ApP),
    Obj("region", <<>>, <<>>, Unrotated, Tri), Obj("region", <<>>, <<>>, Unrotated, Bow),
    Obj("outline", <<>>, <<>>, Unrotated, Tri),
    Obj("group", <<P(0, 0)>>, <<>>, Unrotated, << Flash("circle", <<M(8)>>), [Flash("rectangle", <<M(20), M(6)>>) EXCEPT !.pts = <<P(8, 8)>>, !.rot = <<4, 3, 5>>] >>),
    Obj("slot", <<P(0, 0), P(9, -4)>>, <<M(6)>>, Unrotated, <<>>) }
  \cup { Flash(k, <<M(12)>>) : k \in {"circle", "rbutterfly", "sbutterfly", "srdonut", "donut", "hexdonut", "drill", "polygon"} }
  \cup { Flash(k, <<M(20), M(10)>>) : k \in {"rectangle", "obround", "diamond", "ellipse"} }
  \cup { Flash(k, <<M(20), M(12), M(2)>>) : k \in {"chamfer", "roundrect"} }
\* every combination, queried at once
Statics ==
  { ArcOf(<<3, -2>>, a, b, 2, d, q, ap) : a \in 1..12, b \in 1..12, d \in Dirs, q \in Quads, ap \in {ApC, ApR} }
  \cup { ArcOf(<<0, 0>>, a, b, 1, d, "multi-quadrant", ap) : a \in 1..12, b \in 1..12, d \in Dirs, ap \in {ApO, ApP} }
  \cup { Ln(P(0, 0), P(x, y), ap) : x \in {-7, 0, 7}, y \in {-8, 0, 9}, ap \in {ApC, ApR, ApO, ApP} }
  \cup { Obj("slot", <<P(3, 1), P(x, y)>>, <<M(d)>>, Unrotated, <<>>) : x \in {-7, 3, 7}, y \in {-8, 1, 9}, d \in {2, 30} }
  \cup { [Flash(k, <<M(w), M(h)>>) EXCEPT !.rot = r] : k \in {"rectangle", "obround", "diamond", "ellipse"}, w \in {2, 20}, h \in {2, 14, 20}, r \in Rots }
  \cup { [Flash(k, <<M(w), M(h), M(c)>>) EXCEPT !.rot = r] : k \in {"chamfer", "roundrect"}, w \in {10, 20}, h \in {14, 20}, c \in {1, 4}, r \in Rots }
  \cup { [Flash("polygon", <<M(10)>>) EXCEPT !.rot = r] : r \in Rots }
  \cup { Obj("region", <<>>, <<>>, Unrotated, << Ln(On(c, a, 2), On(c, b, 2), ApC), ArcOf(c, b, a, 2, d, "multi-quadrant", ApC) >>)
         : a \in 1..12, b \in 1..12, d \in Dirs, c \in {<<1, 1>>} }

Op(op, n, a, v, w) == [o |-> op, n |-> n, a |-> a, v |-> v, w |-> w]
NoAp == ApC
Set(a, v) == Op("set", 0, a, v, NoAp)
RoundOps(k) == CASE k \in {"circle", "rbutterfly", "drill"} -> {Set("diameter", <<M(30)>>)}
                 [] k = "sbutterfly" -> {Set("side", <<M(30)>>)}
                 [] k \in {"srdonut", "donut", "hexdonut"} -> {Set("outer_diameter", <<M(30)>>)}
                 [] k = "polygon" -> {Set("radius", <<M(26)>>), Set("rotation", <<4, 3, 5>>)}
                 [] k \in {"rectangle", "obround", "diamond", "ellipse"} ->
                      {Set("width", <<M(40)>>), Set("height", <<M(30)>>), Set("rotation", <<0, 1, 1>>), Set("rotation", <<-3, 4, 5>>)}
                 [] k = "chamfer" -> {Set("width", <<M(40)>>), Set("height", <<M(30)>>), Set("rotation", <<0, -1, 1>>), Set("chamfer", <<M(4)>>),
                                        Set("corners", "1010"), Set("corners", "0100")}
                 [] k = "roundrect" -> {Set("width", <<M(40)>>), Set("height", <<M(30)>>), Set("rotation", <<4, -3, 5>>), Set("radius", <<M(4)>>), Set("corners", "0111")}
                 [] OTHER -> {}
ApOps(x, n, op) == CASE x.k = "circle" -> {Op(op, n, "diameter", <<M(22)>>, NoAp)}
                     [] x.k = "polygon" -> {Op(op, n, "radius", <<M(16)>>, NoAp)}
                     [] OTHER -> {Op(op, n, "width", <<M(18)>>, NoAp), Op(op, n, "height", <<M(26)>>, NoAp)}
Ops(x) ==
  {Op("query", 0, "", <<>>, NoAp), Op("off", 0, "", P(10, 4), NoAp), Op("off", 0, "", P(-3, 0), NoAp),
   Op("conv", 0, "metric", <<>>, NoAp), Op("conv", 0, "inch", <<>>, NoAp)} \cup
  (CASE x.k = "line" -> {Set("start", P(-12, 3)), Set("end", P(2, 15)), Op("set", 0, "aperture", <<>>, ApR), Op("set", 0, "aperture", <<>>, Ap("circle", <<M(2)>>))}
                        \cup ApOps(x.sub[1], 1, "part")
     [] x.k = "arc"  -> LET c == <<x.pts[3][1] \div Mil, x.pts[3][2] \div Mil>> k == x.r \div M(5)
                        IN {Set("start", On(c, n, k)) : n \in {2, 9}} \cup {Set("end", On(c, n, k)) : n \in {4, 11}}
                           \cup {Set(a, Add(x.pts[n], P(50, 50))) : a \in {"start"}, n \in {1}}
                           \cup {Set(a, Add(x.pts[n], P(50, 50))) : a \in {"end"}, n \in {2}}
                           \cup {Set(a, Add(x.pts[n], P(50, 50))) : a \in {"center"}, n \in {3}}
                           \cup {Set("direction", <<>>), Set("quadrant_mode", <<>>), Op("set", 0, "aperture", <<>>, ApO)} \cup ApOps(x.sub[1], 1, "part")
     [] x.k \in {"region", "outline"} ->
                        {Op("poff", 1, "", P(-9, 2), NoAp), Op("part", 2, "end", P(3, 33), NoAp)} \cup
                        (IF x.k = "outline" THEN ApOps(x.sub[2].sub[1], 2, "subpart") ELSE {}) \cup
                        (IF Len(x.sub) < 5 THEN {Op("set", 0, "grow", <<>>, Ln(P(1, 1), P(33, -33), ApC))} ELSE {}) \cup
                        (IF Len(x.sub) > 2 THEN {Set("shrink", <<>>)} ELSE {})
     [] x.k = "group" -> {Set("position", P(20, 20)), Set("position", P(0, 0)), Op("poff", 1, "", P(-9, 2), NoAp), Op("part", 1, "diameter", <<M(30)>>, NoAp),
                          Op("part", 2, "rotation", <<3, 4, 5>>, NoAp), Op("part", 2, "width", <<M(2)>>, NoAp)}
     [] x.k = "slot" -> {Set("start", P(-12, 3)), Set("end", P(2, 15)), Set("diameter", <<M(30)>>)}
     [] OTHER -> {Set("position", P(-20, 7))} \cup RoundOps(x.k))

ForgetOne == {<<"drill", "set", "diameter">>}
Forgets(x, op) == <<x.k, op.o, op.a>> \in Forget
Init == /\ init \in (IF Static THEN Statics ELSE Starts) /\ o = init /\ memo = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops(o) :
             /\ ~(op.o = "query" /\ hist # <<>> /\ hist[Len(hist)].o = "query")
             /\ o' = Apply(o, op) /\ hist' = Append(hist, op)
             /\ memo' = IF op.o = "query" THEN IF memo = <<>> THEN <<Box(o)>> ELSE memo
                        ELSE IF Forgets(o, op) THEN memo ELSE <<>>
        /\ UNCHANGED init
Spec == Init /\ [][Next]_vars
\* --- design invariants -----------------------------------------------------------
MemoCurrent == memo # <<>> => memo[1] = Box(o)
Ordered(b) == b[1] <= b[2] /\ b[3] <= b[4]
Within(a, b) == a[1] >= b[1] /\ a[2] <= b[2] /\ a[3] >= b[3] /\ a[4] <= b[4]
WellOrdered == Judgeable(o) => Ordered(Box(o)) /\ Ordered(BareBox(o))
BareInside == Judgeable(o) => Within(BareBox(o), Box(o))
InnerInside == Judgeable(o) => Within(InnerBox(o), Box(o))
OffsetMovesBox == \A v \in {P(10, 4)} : Judgeable(o) => Box(Moved(o, v)) = LET b == Box(o) IN <<b[1] + v[1], b[2] + v[1], b[3] + v[2], b[4] + v[2]>>
UnitsDoNotMatter == Box(InUnits(o, "metric")) = Box(o)
\* an arc and its reverse draw the same points
ReverseSame == o.k = "arc" /\ Consistent(o) =>
  Path(o) = Path([o EXCEPT !.pts = <<@[2], @[1], @[3]>>, !.dir = IF @ = "clockwise" THEN "counterclockwise" ELSE "clockwise"])
\* an arc and its complement make the circle
ComplementFull == o.k = "arc" /\ Consistent(o) /\ o.pts[1] # o.pts[2] =>
  Union2(<<Path(o), Path([o EXCEPT !.dir = IF @ = "clockwise" THEN "counterclockwise" ELSE "clockwise"])>>) = Around(o.pts[3], o.r, o.r)
EmitIt == (Emit /\ (Depth = 0 \/ Len(hist) = Depth) /\ (Thin = 1 \/ RandomElement(IF Len(hist) > 1000 THEN {} ELSE 1..Thin) = 1))
          => PrintT("P " \o ToJson([obj |-> init, ops |-> hist]))
=============================================================================
