------------------------------- MODULE Shape -------------------------------
(* Questions about graphic objects beyond their boxes: the corners of the     *)
(* straight-edged ones, equality, and equivalence under a displacement.       *)
(* Objects are those of BBox; a polygon's sz is <<radius, sides>>, a chamfer  *)
(* rectangle's dir names its cut corners ("" is all four, else four of 0/1,   *)
(* upper right first and counterclockwise).                                   *)
EXTENDS BBox

\* v * c / h for any sign of v and c
Part(v, c, h) == IF v < 0 THEN -MulDiv(-v, c, h) ELSE MulDiv(v, c, h)
TurnBy(p, r) == <<Part(p[1], r[1], r[3]) - Part(p[2], r[2], r[3]), Part(p[1], r[2], r[3]) + Part(p[2], r[1], r[3])>>
\* cosine and sine of 360 k / n degrees, times 10000
Regular ==
  [n \in {3, 4, 5, 6, 8, 12} |->
     CASE n = 3  -> << <<10000, 0>>, <<-5000, 8660>>, <<-5000, -8660>> >>
       [] n = 4  -> << <<10000, 0>>, <<0, 10000>>, <<-10000, 0>>, <<0, -10000>> >>
       [] n = 5  -> << <<10000, 0>>, <<3090, 9511>>, <<-8090, 5878>>, <<-8090, -5878>>, <<3090, -9511>> >>
       [] n = 6  -> << <<10000, 0>>, <<5000, 8660>>, <<-5000, 8660>>, <<-10000, 0>>, <<-5000, -8660>>, <<5000, -8660>> >>
       [] n = 8  -> << <<10000, 0>>, <<7071, 7071>>, <<0, 10000>>, <<-7071, 7071>>, <<-10000, 0>>, <<-7071, -7071>>, <<0, -10000>>, <<7071, -7071>> >>
       [] n = 12 -> << <<10000, 0>>, <<8660, 5000>>, <<5000, 8660>>, <<0, 10000>>, <<-5000, 8660>>, <<-8660, 5000>>,
                       <<-10000, 0>>, <<-8660, -5000>>, <<-5000, -8660>>, <<0, -10000>>, <<5000, -8660>>, <<8660, -5000>> >> ]
Sides(o) == IF Len(o.sz) > 1 THEN o.sz[2] ELSE 6
FlagsOf(s) == CASE s = "" -> <<TRUE, TRUE, TRUE, TRUE>>      [] s = "1010" -> <<TRUE, FALSE, TRUE, FALSE>>
                [] s = "1000" -> <<TRUE, FALSE, FALSE, FALSE>> [] s = "0100" -> <<FALSE, TRUE, FALSE, FALSE>>
                [] s = "0010" -> <<FALSE, FALSE, TRUE, FALSE>> [] s = "0001" -> <<FALSE, FALSE, FALSE, TRUE>>
                [] s = "0111" -> <<FALSE, TRUE, TRUE, TRUE>>
                [] OTHER -> <<FALSE, FALSE, FALSE, FALSE>>

\* corners of a shape drawn about the origin, not turned, counterclockwise
Plain(o) ==
  LET w == IF o.k = "polygon" THEN 0 ELSE o.sz[1] \div 2
      h == IF o.k = "polygon" THEN 0 ELSE o.sz[2] \div 2
  IN CASE o.k = "rectangle" -> << <<w, h>>, <<-w, h>>, <<-w, -h>>, <<w, -h>> >>
       [] o.k = "diamond"   -> << <<w, 0>>, <<0, h>>, <<-w, 0>>, <<0, -h>> >>
       [] o.k = "chamfer"   ->
            LET c == o.sz[3] f == FlagsOf(o.dir)
            IN (IF f[1] THEN << <<w, h - c>>, <<w - c, h>> >> ELSE << <<w, h>> >>) \o
               (IF f[2] THEN << <<-w + c, h>>, <<-w, h - c>> >> ELSE << <<-w, h>> >>) \o
               (IF f[3] THEN << <<-w, -h + c>>, <<-w + c, -h>> >> ELSE << <<-w, -h>> >>) \o
               (IF f[4] THEN << <<w - c, -h>>, <<w, -h + c>> >> ELSE << <<w, -h>> >>)
       [] o.k = "polygon"   -> [i \in 1..Sides(o) |-> <<Part(o.sz[1], Regular[Sides(o)][i][1], 10000), Part(o.sz[1], Regular[Sides(o)][i][2], 10000)>>]
Straight == {"rectangle", "diamond", "chamfer", "polygon"}
Cornered(o) == o.k \in Straight \/ (o.k = "line" /\ o.sub[1].k \in {"rectangle", "polygon"})
About(o, p) == [i \in 1..Len(Plain(o)) |-> Add(p, TurnBy(Plain(o)[i], o.rot))]
\* the area is the convex hull of these points
Points(o) == IF o.k = "line" THEN About(o.sub[1], o.pts[1]) \o About(o.sub[1], o.pts[2]) ELSE About(o, o.pts[1])

\* twice the area of the triangle, in units of 160 nm, within 32 bits
G == 16
Cross(a, b, c) == ((b[1] - a[1]) \div G) * ((c[2] - a[2]) \div G) - ((b[2] - a[2]) \div G) * ((c[1] - a[1]) \div G)
\* c lies left of, on, or at most about t units right of the line a b
\* (and the rounding of Cross)
LeftOf(a, b, c, t) == Cross(a, b, c) >= -t * ((AbsB(b[1] - a[1]) + AbsB(b[2] - a[2])) \div G + 1)
                                         - (AbsB(b[1] - a[1]) + AbsB(b[2] - a[2]) + AbsB(c[1] - a[1]) + AbsB(c[2] - a[2])) \div G - 2
Near2(a, b, t) == AbsB(a[1] - b[1]) <= t /\ AbsB(a[2] - b[2]) <= t
Wrap(s) == Append(s, s[1])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* vs goes around an area that contains all of ps, counterclockwise
Around_(vs, ps, t) == \A i \in 1..Len(vs) : \A j \in 1..Len(ps) : LeftOf(Wrap(vs)[i], Wrap(vs)[i + 1], ps[j], t)
\* vs are the corners of the convex hull of ps, in order
AreCorners(vs, ps, tp, t) ==
  /\ Len(vs) >= 3
  /\ \A i \in 1..Len(vs) : \E j \in 1..Len(ps) : Near2(vs[i], ps[j], tp)
  /\ Around_(vs, ps, t) \/ Around_(Rev(vs), ps, t)
  /\ \A i, j \in 1..Len(vs) : i < j => ~Near2(vs[i], vs[j], 8)

\* a and b are the same shape, a displaced by v from b
RECURSIVE Equiv(_, _, _)
Equiv(a, b, v) ==
  CASE a.k \in {"circle", "rectangle", "polygon"} -> b.k = a.k /\ a.sz = b.sz /\ a.rot = b.rot /\ a.q = b.q /\ a.pts[1] = Add(b.pts[1], v)
    [] a.k = "line" -> b.k = "line" /\ \A i \in {1, 2} : a.pts[i] = Add(b.pts[i], v)
    [] a.k = "outline" -> b.k = "outline" /\ Len(a.sub) = Len(b.sub) /\ \A i \in 1..Len(a.sub) : Equiv(a.sub[i], b.sub[i], v)
    [] a.k = "group" -> Len(a.sub) = Len(b.sub) /\ \A i \in 1..Len(a.sub) : Equiv(a.sub[i], b.sub[i], v) /\ a.sub[i].dir = b.sub[i].dir
    [] OTHER -> a = Moved(b, v)
Comparable(a) == a.k \in {"circle", "rectangle", "polygon", "line", "outline", "group"}
=============================================================================
