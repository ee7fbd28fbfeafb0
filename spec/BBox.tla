-------------------------------- MODULE BBox --------------------------------
(* Graphic objects and the smallest axis-parallel boxes enclosing them.      *)
(* Lengths are integers in units of 10 nm, whatever unit the object is in:   *)
(* conversion changes only the unit tag.  An object is a record              *)
(*   k     kind                                                              *)
(*   pts   points: position / start, end / start, end, centre                *)
(*   sz    sizes: width, height / diameter / radius ...                      *)
(*   rot   <<c, s, h>>: rotation with cosine c/h and sine s/h                *)
(*   sub   parts: the aperture of a line or arc, segments, parts of a group  *)
(*   dir, q   direction and quadrant mode of an arc;  r  its radius          *)
(*   u     unit tag                                                          *)
EXTENDS Integers, Sequences, FiniteSets

AbsB(n) == IF n < 0 THEN -n ELSE n
MinOf(S) == CHOOSE m \in S : \A k \in S : m <= k
MaxOf(S) == CHOOSE m \in S : \A k \in S : m >= k
MulDiv(v, c, h) == (v \div h) * c + ((v % h) * c) \div h        \* v*c/h, no overflow, v >= 0
RECURSIVE Root(_, _)
Root(n, g) == LET m == (g + n \div g) \div 2 IN IF m >= g THEN g ELSE Root(n, m)
Sqrt(n) == IF n <= 0 THEN 0 ELSE Root(n, n)

Unrotated == <<1, 0, 1>>
Turned(o) == o.rot[1] # 0 /\ o.rot[2] # 0           \* neither 0, 90, 180 nor 270 degrees

\* a box: <<x0, x1, y0, y1>>
Around(p, hx, hy) == <<p[1] - hx, p[1] + hx, p[2] - hy, p[2] + hy>>
OfPoints(ps) == LET xs == {ps[k][1] : k \in 1..Len(ps)} ys == {ps[k][2] : k \in 1..Len(ps)}
                IN <<MinOf(xs), MaxOf(xs), MinOf(ys), MaxOf(ys)>>
Union2(bs) == <<MinOf({bs[k][1] : k \in 1..Len(bs)}), MaxOf({bs[k][2] : k \in 1..Len(bs)}),
                MinOf({bs[k][3] : k \in 1..Len(bs)}), MaxOf({bs[k][4] : k \in 1..Len(bs)})>>
Grow(b, hx, hy) == <<b[1] - hx, b[2] + hx, b[3] - hy, b[4] + hy>>

\* half extents of a width x height rectangle rotated about its centre
RectHX(o) == (MulDiv(o.sz[1], AbsB(o.rot[1]), o.rot[3]) + MulDiv(o.sz[2], AbsB(o.rot[2]), o.rot[3])) \div 2
RectHY(o) == (MulDiv(o.sz[2], AbsB(o.rot[1]), o.rot[3]) + MulDiv(o.sz[1], AbsB(o.rot[2]), o.rot[3])) \div 2
\* ellipse: sqrt((w c)^2 + (h s)^2) / 2, in mil to stay within 32 bits
Mil == 2540
HypMil(a, b) == Sqrt((a * a + b * b) * 220 * 220)   \* times 220
EllHX(o) == IF ~Turned(o) THEN RectHX(o)
            ELSE (HypMil((o.sz[1] \div Mil) * o.rot[1], (o.sz[2] \div Mil) * o.rot[2]) * (Mil \div 20)) \div (22 * o.rot[3])
EllHY(o) == IF ~Turned(o) THEN RectHY(o)
            ELSE (HypMil((o.sz[1] \div Mil) * o.rot[2], (o.sz[2] \div Mil) * o.rot[1]) * (Mil \div 20)) \div (22 * o.rot[3])

\* half extents of a shape drawn about the origin
HX(o) == CASE o.k \in {"circle", "rbutterfly", "drill", "sbutterfly", "srdonut"} -> o.sz[1] \div 2
           [] o.k \in {"rectangle", "obround", "diamond", "chamfer", "roundrect"} -> RectHX(o)
           [] o.k = "ellipse" -> EllHX(o)
           [] o.k = "polygon" -> o.sz[1]                     \* the circumscribed circle
           [] o.k = "hexdonut" -> (o.sz[1] * 433) \div 1000 + ((o.sz[1] \div 1000) * 13) \div 1000
           [] o.k = "donut" -> o.sz[1] \div 2
HY(o) == CASE o.k \in {"rectangle", "obround", "diamond", "chamfer", "roundrect"} -> RectHY(o)
           [] o.k = "ellipse" -> EllHY(o)
           [] o.k = "hexdonut" -> o.sz[1] \div 2
           [] OTHER -> HX(o)

\* --- arcs: points are ordered counterclockwise by <<quarter, advance>> --------
Q(p, c) == LET x == p[1] - c[1] y == p[2] - c[2]
           IN CASE x > 0 /\ y = 0 -> <<0, 0>>  [] x > 0 /\ y > 0 -> <<1, y - x>>
                [] x = 0 /\ y > 0 -> <<2, 0>>  [] x < 0 /\ y > 0 -> <<3, -x - y>>
                [] x < 0 /\ y = 0 -> <<4, 0>>  [] x < 0 /\ y < 0 -> <<5, x - y>>
                [] x = 0 /\ y < 0 -> <<6, 0>>  [] x > 0 /\ y < 0 -> <<7, x + y>>
                [] OTHER -> <<0, 0>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* the axis direction with number a (0, 2, 4, 6) lies strictly inside the
\* counterclockwise arc from s to e (equal: the full circle)
Crosses(s, e, a) == LET m == <<a, 0>>
                    IN IF s = e THEN m # s
                       ELSE IF Before(s, e) THEN Before(s, m) /\ Before(m, e)
                       ELSE Before(s, m) \/ Before(m, e)
AxisPoint(c, r, a) == CASE a = 0 -> <<c[1] + r, c[2]>> [] a = 2 -> <<c[1], c[2] + r>>
                        [] a = 4 -> <<c[1] - r, c[2]>> [] OTHER -> <<c[1], c[2] - r>>
ArcPath(o) ==
  LET s == o.pts[1] e == o.pts[2] c == o.pts[3]
      ccw == o.dir = "counterclockwise"
      a == Q(IF ccw THEN s ELSE e, c)
      b == Q(IF ccw THEN e ELSE s, c)
      none == s = e /\ o.q # "multi-quadrant"             \* no motion
      ax == IF none THEN {} ELSE {k \in {0, 2, 4, 6} : Crosses(a, b, k)}
      F[k \in 0..8] == IF k = 0 THEN <<>> ELSE IF (k - 1) \in ax THEN Append(F[k - 1], AxisPoint(c, o.r, k - 1)) ELSE F[k - 1]
  IN <<s, e>> \o F[8]

Path(o) == IF o.k = "arc" THEN OfPoints(ArcPath(o)) ELSE OfPoints(o.pts)

RECURSIVE Box(_)
Box(o) ==
  CASE o.k \in {"line", "arc"} -> Grow(Path(o), HX(o.sub[1]), HY(o.sub[1]))
    [] o.k = "slot"   -> Grow(OfPoints(o.pts), o.sz[1] \div 2, o.sz[1] \div 2)
    [] o.k = "region" -> Union2([k \in 1..Len(o.sub) |-> Path(o.sub[k])])
    [] o.k \in {"outline", "group"} -> Union2([k \in 1..Len(o.sub) |-> Box(o.sub[k])])
    [] OTHER -> Around(o.pts[1], HX(o), HY(o))
\* the box without the width of the aperture
BareBox(o) == IF o.k \in {"line", "arc"} THEN Path(o) ELSE Box(o)

\* turned diamonds, obrounds ... : Box is their rectangle's box; what they draw
\* reaches at least this far
InnerHX(o) == CASE o.k = "diamond" /\ Turned(o) ->
                     MaxOf({MulDiv(o.sz[1], AbsB(o.rot[1]), o.rot[3]), MulDiv(o.sz[2], AbsB(o.rot[2]), o.rot[3])}) \div 2
                [] o.k = "obround" /\ Turned(o) ->
                     LET m == MinOf({o.sz[1], o.sz[2]}) IN
                     (MulDiv(o.sz[1] - m, AbsB(o.rot[1]), o.rot[3]) + MulDiv(o.sz[2] - m, AbsB(o.rot[2]), o.rot[3]) + m) \div 2
                [] o.k = "roundrect" /\ Turned(o) ->
                     (MulDiv(o.sz[1] - 2 * o.sz[3], AbsB(o.rot[1]), o.rot[3])
                      + MulDiv(o.sz[2] - 2 * o.sz[3], AbsB(o.rot[2]), o.rot[3]) + 2 * o.sz[3]) \div 2
                [] o.k = "chamfer" /\ Turned(o) ->
                     (MulDiv(o.sz[1] - 2 * o.sz[3], AbsB(o.rot[1]), o.rot[3])
                      + MulDiv(o.sz[2] - 2 * o.sz[3], AbsB(o.rot[2]), o.rot[3])) \div 2
                [] OTHER -> HX(o)
InnerHY(o) == CASE o.k = "diamond" /\ Turned(o) ->
                     MaxOf({MulDiv(o.sz[2], AbsB(o.rot[1]), o.rot[3]), MulDiv(o.sz[1], AbsB(o.rot[2]), o.rot[3])}) \div 2
                [] o.k = "obround" /\ Turned(o) ->
                     LET m == MinOf({o.sz[1], o.sz[2]}) IN
                     (MulDiv(o.sz[2] - m, AbsB(o.rot[1]), o.rot[3]) + MulDiv(o.sz[1] - m, AbsB(o.rot[2]), o.rot[3]) + m) \div 2
                [] o.k = "roundrect" /\ Turned(o) ->
                     (MulDiv(o.sz[2] - 2 * o.sz[3], AbsB(o.rot[1]), o.rot[3])
                      + MulDiv(o.sz[1] - 2 * o.sz[3], AbsB(o.rot[2]), o.rot[3]) + 2 * o.sz[3]) \div 2
                [] o.k = "chamfer" /\ Turned(o) ->
                     (MulDiv(o.sz[2] - 2 * o.sz[3], AbsB(o.rot[1]), o.rot[3])
                      + MulDiv(o.sz[1] - 2 * o.sz[3], AbsB(o.rot[2]), o.rot[3])) \div 2
                [] OTHER -> HY(o)
InnerBox(o) == IF o.k \in {"diamond", "obround", "roundrect", "chamfer"} THEN Around(o.pts[1], InnerHX(o), InnerHY(o)) ELSE Box(o)

\* an arc whose start and end lie on one circle about the centre
OnRing(p, c) == LET x == AbsB(p[1] - c[1]) y == AbsB(p[2] - c[2])
                    a == MaxOf({x, y}) b == MinOf({x, y}) IN <<a, b>>
Ring5(v, k) == v \in {<<5 * k, 0>>, <<4 * k, 3 * k>>}
Consistent(o) == o.k # "arc" \/ (Ring5(OnRing(o.pts[1], o.pts[3]), o.r \div 5) /\ Ring5(OnRing(o.pts[2], o.pts[3]), o.r \div 5))
RECURSIVE Judgeable(_)
Judgeable(o) == Consistent(o) /\ (o.k = "region" => \A k \in 1..Len(o.sub) : Judgeable(o.sub[k]))

\* --- operations ----------------------------------------------------------------
Add(p, v) == <<p[1] + v[1], p[2] + v[2]>>
RECURSIVE Moved(_, _)
Moved(o, v) == [o EXCEPT !.pts = [k \in 1..Len(@) |-> Add(@[k], v)],
                         !.sub = IF o.k \in {"line", "arc"} THEN @ ELSE [k \in 1..Len(@) |-> Moved(@[k], v)]]
RECURSIVE InUnits(_, _)
InUnits(o, u) == [o EXCEPT !.u = u, !.sub = [k \in 1..Len(@) |-> InUnits(@[k], u)]]
\* attribute -> the component of the record
SetAttr(o, a, v, w) ==
  CASE a \in {"position", "start"} /\ o.k # "group" -> [o EXCEPT !.pts[1] = v]
    [] a = "position" -> Moved(o, <<v[1] - o.pts[1][1], v[2] - o.pts[1][2]>>)
    [] a = "end"      -> [o EXCEPT !.pts[2] = v]
    [] a = "center"   -> [o EXCEPT !.pts[3] = v]
    [] a = "aperture" -> [o EXCEPT !.sub[1] = [w EXCEPT !.u = o.u]]
    [] a = "direction" -> [o EXCEPT !.dir = IF o.dir = "clockwise" THEN "counterclockwise" ELSE "clockwise"]
    [] a = "quadrant_mode" -> [o EXCEPT !.q = IF @ = "multi-quadrant" THEN "single-quadrant" ELSE "multi-quadrant"]
    [] a \in {"width", "diameter", "side", "outer_diameter"} \/ (a = "radius" /\ o.k = "polygon") -> [o EXCEPT !.sz[1] = v[1]]
    [] a = "height"   -> [o EXCEPT !.sz[2] = v[1]]
    [] a \in {"radius", "chamfer"} -> [o EXCEPT !.sz[3] = v[1]]
    [] a = "rotation" -> [o EXCEPT !.rot = v]
    [] a = "corners"  -> [o EXCEPT !.dir = v]           \* which corners are cut: "" all, else 0/1 for each
    [] a = "grow"     -> [o EXCEPT !.sub = Append(@, [w EXCEPT !.u = o.u])]
    [] a = "shrink"   -> [o EXCEPT !.sub = SubSeq(@, 1, Len(@) - 1)]
Apply(o, op) ==
  CASE op.o = "query" -> o
    [] op.o = "off"   -> Moved(o, op.v)
    [] op.o = "conv"  -> InUnits(o, op.a)
    [] op.o = "set"   -> SetAttr(o, op.a, op.v, op.w)
    [] op.o = "part"  -> [o EXCEPT !.sub[op.n] = SetAttr(@, op.a, op.v, op.w)]
    [] op.o = "poff"  -> [o EXCEPT !.sub[op.n] = Moved(@, op.v)]
    [] op.o = "subpart" -> [o EXCEPT !.sub[op.n].sub[1] = SetAttr(@, op.a, op.v, op.w)]
=============================================================================
