-------------------------------- MODULE Raster --------------------------------
(***************************************************************************)
(* Pictures.  A layer is a sequence of graphic objects; painting sets the  *)
(* points an object covers (dark) or frees them (clear), the last object   *)
(* decides.  Layers are painted over a background, one after the other.    *)
(*                                                                         *)
(* Lengths are integers of an arbitrary grid.  Coverage is three-valued:   *)
(* a point is "in" (at least m inside), "out" (at least m outside) or near *)
(* an "edge", where the picture is not decided.                            *)
(*                                                                         *)
(* An area is a record [k, pts, sz, hole, n, rot, dir, q, sub, pol]:       *)
(*   disc     centre; diameter          rect, obround  centre; w, h        *)
(*   poly     centre; diameter; n corners, the first at rot degrees        *)
(*   cap      s, e; diameter            sweep  s, e; w, h of the box moved *)
(*   arc      s, e, centre; diameter; dir, q                               *)
(*   contour  sub: segments (line, arc), closed by a line                  *)
(*   thermal  centre; outer, inner, gap; rot                               *)
(*   group    sub: areas with their own polarity                           *)
(*   blur     sub[1]: cap or arc that encloses what is drawn (not decided)  *)
(*   record   centre; diameter, width and height of the label               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

The(S) == CHOOSE x \in S : TRUE
V2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Crs(a, b) == a[1] * b[2] - a[2] * b[1]
Dt(a, b) == a[1] * b[1] + a[2] * b[2]
AbsR(n) == IF n < 0 THEN -n ELSE n
RECURSIVE RootR(_, _)
RootR(n, g) == LET m == (g + n \div g) \div 2 IN IF m >= g THEN g ELSE RootR(n, m)
ISqrt(n) == IF n <= 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE RootR(n, n \div 2)        \* floor

\* --- circles and angles: cosines of whole degrees, times 10000 --------------
CosT == << 10000, 9998, 9994, 9986, 9976, 9962, 9945, 9925, 9903, 9877, 9848, 9816, 9781, 9744, 9703, 9659, 9613, 9563,
  9511, 9455, 9397, 9336, 9272, 9205, 9135, 9063, 8988, 8910, 8829, 8746, 8660, 8572, 8480, 8387, 8290, 8192, 8090, 7986,
  7880, 7771, 7660, 7547, 7431, 7314, 7193, 7071, 6947, 6820, 6691, 6561, 6428, 6293, 6157, 6018, 5878, 5736, 5592, 5446,
  5299, 5150, 5000, 4848, 4695, 4540, 4384, 4226, 4067, 3907, 3746, 3584, 3420, 3256, 3090, 2924, 2756, 2588, 2419, 2250,
  2079, 1908, 1736, 1564, 1392, 1219, 1045, 872, 698, 523, 349, 175, 0 >>
Cos1(a) == LET d == a % 360 IN CASE d <= 90 -> CosT[d + 1] [] d <= 180 -> -CosT[181 - d]
                                 [] d <= 270 -> -CosT[d - 179] [] OTHER -> CosT[361 - d]
Sin1(a) == Cos1(a - 90)
Scaled(v, c) == (v * c + 5000) \div 10000
Rot1(p, a) == << Scaled(p[1], Cos1(a)) - Scaled(p[2], Sin1(a)), Scaled(p[1], Sin1(a)) + Scaled(p[2], Cos1(a)) >>

\* the direction of v lies in the counterclockwise sweep from a to b (a = b: everywhere)
Swept(a, b, v) ==
  LET x == Crs(a, b)
  IN IF x = 0 /\ Dt(a, b) > 0 THEN TRUE
     ELSE IF x >= 0 THEN Crs(a, v) >= 0 /\ (x = 0 \/ Crs(v, b) >= 0)
     ELSE ~(Crs(b, v) > 0 /\ Crs(v, a) > 0)

\* --- coverage of simple shapes ----------------------------------------------
Cls(inn, out) == IF inn THEN "in" ELSE IF out THEN "out" ELSE "edge"
Or3(a, b) == IF a = "in" \/ b = "in" THEN "in" ELSE IF a = "out" /\ b = "out" THEN "out" ELSE "edge"
Minus3(a, b) == IF a = "out" \/ b = "in" THEN "out" ELSE IF a = "in" /\ b = "out" THEN "in" ELSE "edge"

Disc(p, c, d, m) ==
  LET q == 4 * Dt(V2(p, c), V2(p, c))
      lo == d - 2 * m  hi == d + 2 * m
  IN Cls(lo >= 0 /\ q <= lo * lo, q >= hi * hi)
Rect(p, c, w, h, m) ==
  LET x == 2 * AbsR(p[1] - c[1])  y == 2 * AbsR(p[2] - c[2])
  IN Cls(x <= w - 2 * m /\ y <= h - 2 * m, x >= w + 2 * m \/ y >= h + 2 * m)
Obround(p, c, w, h, m) ==
  LET d == IF w < h THEN w ELSE h
      x0 == 2 * AbsR(p[1] - c[1]) - (w - d)  y0 == 2 * AbsR(p[2] - c[2]) - (h - d)
      x == IF x0 < 0 THEN 0 ELSE x0  y == IF y0 < 0 THEN 0 ELSE y0
      lo == d - 2 * m  hi == d + 2 * m
  IN Cls(lo >= 0 /\ x * x + y * y <= lo * lo, x * x + y * y >= hi * hi)
\* a disc moved along a straight line
Cap(p, s, e, d, m) ==
  LET v == V2(e, s)  L2 == Dt(v, v)  t == Dt(V2(p, s), v)
  IN IF t <= 0 \/ L2 = 0 THEN Disc(p, s, d, m)
     ELSE IF t >= L2 THEN Disc(p, e, d, m)
     ELSE LET c == 2 * AbsR(Crs(v, V2(p, s)))  l == ISqrt(L2)
          IN Cls(d >= 2 * m /\ c <= (d - 2 * m) * l, c >= (d + 2 * m) * (l + 1))
\* a box moved along a straight line: the line meets the box about p
MeetsBox(p, s, e, w, h) ==
  /\ w >= 0 /\ h >= 0
  /\ LET xs == {s[1], e[1]}  ys == {s[2], e[2]}
     IN /\ \E x \in xs : 2 * (x - p[1]) <= w
        /\ \E x \in xs : 2 * (p[1] - x) <= w
        /\ \E y \in ys : 2 * (y - p[2]) <= h
        /\ \E y \in ys : 2 * (p[2] - y) <= h
  /\ LET v == V2(e, s) IN 2 * AbsR(Crs(v, V2(p, s))) <= w * AbsR(v[2]) + h * AbsR(v[1])
Sweep(p, s, e, w, h, m) == Cls(MeetsBox(p, s, e, w - 2 * m, h - 2 * m), ~MeetsBox(p, s, e, w + 2 * m, h + 2 * m))
\* a disc moved along an arc
Band(p, s, c, d, m) ==          \* about the whole circle
  LET r8 == ISqrt(64 * Dt(V2(s, c), V2(s, c)))
      a8 == ISqrt(64 * Dt(V2(p, c), V2(p, c)))
      x  == AbsR(a8 - r8)
  IN Cls(x + 2 <= 4 * d - 8 * m, x >= 4 * d + 8 * m + 2)
Nothing(o) == o.pts[1] = o.pts[2] /\ o.q = "single-quadrant"
OnArc(o, p) ==
  LET s == o.pts[1]  e == o.pts[2]  c == o.pts[3]
      a == V2(s, c)  b == V2(e, c)
  IN ~Nothing(o) /\ IF o.dir = "counterclockwise" THEN Swept(a, b, V2(p, c)) ELSE Swept(b, a, V2(p, c))
Arc(o, p, d, m) == Or3(IF OnArc(o, p) THEN Band(p, o.pts[1], o.pts[3], d, m) ELSE "out",
                       Or3(Disc(p, o.pts[1], d, m), Disc(p, o.pts[2], d, m)))

\* --- contours: winding number ------------------------------------------------
\* edge a-b, crossed by the ray from p to the right
Wind(p, a, b) ==
  IF a[2] <= p[2] /\ b[2] > p[2] THEN (IF Crs(V2(b, a), V2(p, a)) > 0 THEN 1 ELSE 0)
  ELSE IF a[2] > p[2] /\ b[2] <= p[2] THEN (IF Crs(V2(b, a), V2(p, a)) < 0 THEN -1 ELSE 0)
  ELSE 0
\* what an arc adds to its chord
Bulge(o, p) ==
  IF o.k # "arc" \/ Nothing(o) THEN 0
  ELSE LET s == o.pts[1]  e == o.pts[2]  c == o.pts[3]
           inside == Dt(V2(p, c), V2(p, c)) < Dt(V2(s, c), V2(s, c))
           v == V2(e, s)
           x0 == Crs(v, V2(p, s))
           x == IF x0 # 0 THEN x0 ELSE IF v[2] # 0 THEN -v[2] ELSE v[1]      \* on the chord: as Wind takes it
       IN IF ~inside THEN 0
          ELSE IF s = e THEN (IF o.dir = "counterclockwise" THEN 1 ELSE -1)
          ELSE IF o.dir = "counterclockwise" THEN (IF x < 0 THEN 1 ELSE 0)
          ELSE (IF x > 0 THEN -1 ELSE 0)
Near(o, p, m) == IF o.k = "arc" THEN Arc(o, p, 0, m) # "out" ELSE Cap(p, o.pts[1], o.pts[2], 0, m) # "out"
Closing(ss) == [ss[1] EXCEPT !.k = "line", !.pts = <<ss[Len(ss)].pts[2], ss[1].pts[1]>>]
Contour(ss, p, m) ==
  IF \E k \in 1..Len(ss) : Near(ss[k], p, m) THEN "edge"
  ELSE IF Near(Closing(ss), p, m) THEN "edge"
  ELSE LET w == FoldLeft(LAMBDA acc, o : acc + Wind(p, o.pts[1], o.pts[2]) + Bulge(o, p),
                         Wind(p, ss[Len(ss)].pts[2], ss[1].pts[1]), ss)
       IN IF w = 0 THEN "out" ELSE IF w % 2 = 0 THEN "edge" ELSE "in"   \* overlapping itself: not decided
Corners(c, d, n, rot) == [k \in 1..n |-> LET v == Rot1(<<d \div 2, 0>>, rot + (360 * (k - 1) + n \div 2) \div n)
                                         IN <<c[1] + v[1], c[2] + v[2]>>]
Polygon(p, c, d, n, rot, m) ==
  IF Disc(p, c, d, m) = "out" THEN "out"
  ELSE The({ LET inside == FoldLeft(LAMBDA acc, k : acc + Wind(p, cs[k], cs[(k % n) + 1]), 0, [k \in 1..n |-> k]) # 0
             IN IF \E k \in 1..n : Cap(p, cs[k], cs[(k % n) + 1], 0, m + d \div 200) # "out" THEN "edge"
                ELSE IF inside THEN "in" ELSE "out" : cs \in {Corners(c, d, n, rot)} })
Thermal(p, c, z, rot, m) ==
  LET v == Rot1(V2(p, c), -rot)
      ring == Minus3(Disc(p, c, z[1], m), Disc(p, c, z[2], m))
      x == 2 * AbsR(v[1])  y == 2 * AbsR(v[2])
      lo == IF x < y THEN x ELSE y
  IN Minus3(ring, Cls(lo <= z[3] - 2 * m - 2, lo >= z[3] + 2 * m + 2))
\* a disc with a label of undetermined looks to its right
Labelled(p, c, z, m) ==
  LET b == Rect(p, <<c[1] + z[2] \div 2, c[2] + z[1]>>, z[2] + 4 * z[1], z[3], m)
  IN Or3(Disc(p, c, z[1], m), IF b = "out" THEN "out" ELSE "edge")
Hole(o, p, m) == CASE o.hole = <<>> -> "out"
                   [] Len(o.hole) = 1 -> Disc(p, o.pts[1], o.hole[1], m)
                   [] OTHER -> Rect(p, o.pts[1], o.hole[1], o.hole[2], m)

Simple(o, p, m) ==
  CASE o.k = "disc"    -> Disc(p, o.pts[1], o.sz[1], m)
    [] o.k = "rect"    -> Rect(p, o.pts[1], o.sz[1], o.sz[2], m)
    [] o.k = "obround" -> Obround(p, o.pts[1], o.sz[1], o.sz[2], m)
    [] o.k = "poly"    -> Polygon(p, o.pts[1], o.sz[1], o.n, o.rot, m)
    [] o.k = "cap"     -> Cap(p, o.pts[1], o.pts[2], o.sz[1], m)
    [] o.k = "sweep"   -> Sweep(p, o.pts[1], o.pts[2], o.sz[1], o.sz[2], m)
    [] o.k = "arc"     -> Arc(o, p, o.sz[1], m)
    [] o.k = "contour" -> Contour(o.sub, p, m)
    [] o.k = "thermal" -> Thermal(p, o.pts[1], o.sz, o.rot, m)
    [] o.k = "record"  -> Labelled(p, o.pts[1], o.sz, m)
    [] o.k = "blur"    -> IF (IF o.sub[1].k = "cap" THEN Cap(p, o.pts[1], o.pts[2], o.sub[1].sz[1], m) ELSE Arc(o, p, o.sub[1].sz[1], m)) = "out"
                          THEN "out" ELSE "edge"
    [] OTHER           -> "edge"
Plain(o, p, m) == LET a == Simple(o, p, m) IN IF a = "out" THEN "out" ELSE Minus3(a, Hole(o, p, m))

\* --- painting -----------------------------------------------------------------
\* state of a point: "on", "off" or "?"
After(cur, cov, pol) ==
  LET v == IF pol = "dark" THEN "on" ELSE "off"
  IN CASE cov = "in" -> v [] cov = "out" -> cur [] OTHER -> (IF cur = v THEN cur ELSE "?")
\* a macro's parts paint on a sheet of their own
Cover(o, p, m) ==
  IF o.k # "group" THEN Plain(o, p, m)
  ELSE LET s == FoldLeft(LAMBDA cur, x : After(cur, Plain(x, p, m), x.pol), "off", o.sub)
       IN CASE s = "on" -> "in" [] s = "off" -> "out" [] OTHER -> "edge"
Paint(cur, o, p, m) == After(cur, Cover(o, p, m), o.pol)
Flip(s) == CASE s = "on" -> "off" [] s = "off" -> "on" [] OTHER -> "?"
Point(layer, p, m) ==
  LET s == FoldLeft(LAMBDA cur, o : Paint(cur, o, p, m), "off", layer.objs)
  IN IF layer.invert THEN Flip(s) ELSE s

\* --- pictures -------------------------------------------------------------------
\* frame: [x, y, w, h] of the board shown, num/den grid units per pixel.  Rows
\* are counted from the top; a mirrored layer is seen from the other side.
At(fr, mirror, i, j) ==
  LET h == ((2 * i + 1) * fr.num) \div (2 * fr.den)
      v == ((2 * j + 1) * fr.num) \div (2 * fr.den)
  IN << IF mirror THEN fr.x + fr.w - h ELSE fr.x + h, fr.y + fr.h - v >>
\* colours are 0..255, alpha in percent
Blend(under, layer) == [k \in 1..3 |-> (under[k] * (100 - layer.alpha) + layer.color[k] * layer.alpha) \div 100]
Colour(bg, layers, fr, m, i, j) ==             \* <<>>: not decided
  FoldLeft(LAMBDA c, layer :
             LET s == Point(layer, At(fr, layer.mirror, i, j), m)
             IN CASE s = "on" /\ layer.alpha = 100 -> layer.color          \* whatever lies below
                  [] s = "off" -> c
                  [] s = "on" /\ c # <<>> -> Blend(c, layer)
                  [] OTHER -> <<>>,
           bg, layers)

\* --- area, for pictures of a single object (in 1/100 of a square of side u) ------
\* sizes up to 4000: d and u are taken in a common unit
AreaOf(o) ==           \* grid units squared
  LET circ(d) == (d * d * 11) \div 14 IN
  CASE o.k = "disc" -> circ(o.sz[1])
    [] o.k = "rect" -> o.sz[1] * o.sz[2]
    [] o.k = "obround" -> LET d == IF o.sz[1] < o.sz[2] THEN o.sz[1] ELSE o.sz[2]
                          IN circ(d) + d * (AbsR(o.sz[1] - o.sz[2]))
    [] o.k = "cap" -> circ(o.sz[1]) + o.sz[1] * ISqrt(Dt(V2(o.pts[2], o.pts[1]), V2(o.pts[2], o.pts[1])))
    [] o.k = "sweep" -> LET v == V2(o.pts[2], o.pts[1])
                        IN o.sz[1] * o.sz[2] + o.sz[1] * AbsR(v[2]) + o.sz[2] * AbsR(v[1])
    [] OTHER -> 0
=============================================================================
