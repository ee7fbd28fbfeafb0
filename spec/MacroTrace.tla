------------------------------ MODULE MacroTrace ------------------------------
(* Trace validation: [cmds, obs] where obs.img lists the flashes the           *)
(* implementation produced: [p, parts], part = [k, pol, pts, z, closed].       *)
EXTENDS Macro, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, s
vars == <<tid, l, s>>
V(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))

Tol == 5
Near(a, b) == AbsI(a - b) <= Tol
NearP(a, b) == Near(a[1], b[1]) /\ Near(a[2], b[2])
\* drop a corner that coincides with its successor (cyclically)
Distinct(pts) ==
  LET n == Len(pts)
      ks == SelectSeq([k \in 1..n |-> k], LAMBDA k : n = 1 \/ ~NearP(pts[k], pts[(k % n) + 1]))
  IN [k \in 1..Len(ks) |-> pts[ks[k]]]
SameCycle(a0, b0) ==
  LET a == Distinct(a0)
      b == Distinct(b0)
      n == Len(a)
  IN /\ n = Len(b)
     /\ n = 0 \/ \E o \in 0..(n - 1) :
          \/ \A k \in 1..n : NearP(a[k], b[((k - 1 + o) % n) + 1])
          \/ \A k \in 1..n : NearP(a[k], b[((2 * n - (k - 1) + o) % n) + 1])

\* number of observed parts a primitive expands to
Parts(sh) == CASE sh.k = "thermal" -> 4 [] sh.k = "moire" -> 0 [] OTHER -> 1
Shift(pts, p) == [k \in 1..Len(pts) |-> Plus(pts[k], p)]

\* thermal quadrant: corner points seen in the un-rotated frame of the centre
Frame(o, c, r) == [k \in 1..Len(o.pts) |-> Turn(<<o.pts[k][1] - c[1], o.pts[k][2] - c[2]>>, -r)]
AtRadius(p, d) == LET e == p[1] * p[1] + p[2] * p[2]
                      r == d \div 2
                  IN AbsI(e - r * r) <= 10 * r
QuadOK(pts, z, sx, sy) ==
  LET x(k) == sx * pts[k][1]
      y(k) == sy * pts[k][2]
      g == z[3] \div 2
      K == 1..Len(pts)
  IN /\ \A k \in K : x(k) >= g - Tol /\ y(k) >= g - Tol
     /\ \A k \in K : AtRadius(pts[k], z[1]) \/ AtRadius(pts[k], z[2])
     /\ \A dd \in {z[1], z[2]} : /\ \E k \in K : Near(x(k), g) /\ AtRadius(pts[k], dd)
                                 /\ \E k \in K : Near(y(k), g) /\ AtRadius(pts[k], dd)
                                 /\ Cardinality({k \in K : AtRadius(pts[k], dd)}) >= 6
ThermalOK(sh, p, os) ==
  LET fr(o) == Frame(o, Plus(sh.pts[1], p), sh.z[4])
  IN /\ \A k \in 1..4 : os[k].k = "contour" /\ os[k].pol = "dark" /\ os[k].closed
     /\ \A sx \in {-1, 1}, sy \in {-1, 1} : \E k \in 1..4 : QuadOK(fr(os[k]), sh.z, sx, sy)
PartOK(sh, p, o) ==
  /\ o.k = sh.k /\ o.pol = sh.pol
  /\ CASE sh.k = "circle" -> NearP(o.pts[1], Plus(sh.pts[1], p)) /\ Near(o.z[1], sh.z[1])
       [] sh.k = "polygon" -> /\ NearP(o.pts[1], Plus(sh.pts[1], p)) /\ Near(o.z[1], sh.z[1]) /\ o.z[2] = sh.z[2]
                              /\ ((o.z[3] - sh.z[3]) * sh.z[2]) % 360 = 0
       [] OTHER -> o.closed /\ SameCycle(Shift(sh.pts, p), o.pts)

RECURSIVE Match(_, _, _)
\* <<>> if the observed parts match, else the first offending shape
Match(shs, p, os) ==
  IF shs = <<>> THEN IF os = <<>> THEN <<>> ELSE << <<"extra-part", os[1]>> >>
  ELSE LET sh == Head(shs)
           n == Parts(sh)
       IN IF sh.k = "moire" THEN Match(Tail(shs), p, os)     \* see Judge
          ELSE IF Len(os) < n THEN << <<"missing-part", sh>> >>
          ELSE IF (IF n = 4 THEN ThermalOK(sh, p, SubSeq(os, 1, 4)) ELSE PartOK(sh, p, os[1]))
          THEN Match(Tail(shs), p, SubSeq(os, n + 1, Len(os)))
          ELSE << <<sh.k, [expected |-> sh, at |-> p, observed |-> SubSeq(os, 1, n)]>> >>

FlashBad(e, o) ==
  IF o.p # e.p THEN << <<"flash-position", [expected |-> e.p, observed |-> o.p]>> >>
  ELSE Match([k \in 1..Len(e.prims) |-> Shape(e.prims[k])], e.p, o.parts)
Judge(t, e, o) ==
  IF o.err # "" THEN V(t, FALSE, "reader-raised", [error |-> o.err])
  ELSE IF Len(o.img) # Len(e.img) THEN V(t, FALSE, "flash-count", [expected |-> Len(e.img), observed |-> Len(o.img)])
  ELSE LET bs == [k \in 1..Len(e.img) |-> FlashBad(e.img[k], o.img[k])]
           ks == {k \in 1..Len(bs) : bs[k] # <<>>}
           Moire == \E k \in 1..Len(e.img) : \E n \in 1..Len(e.img[k].prims) : e.img[k].prims[n].code = 6
       IN IF ks = {} THEN IF Moire THEN V(t, FALSE, "macro-moire-missing", [n |-> Len(e.img)])
                          ELSE V(t, TRUE, "", [n |-> Len(e.img)])
          ELSE LET k == CHOOSE k \in ks : \A m \in ks : k <= m
               IN V(t, FALSE, "macro-" \o bs[k][1][1], [flash |-> k, what |-> bs[k][1][2], prims |-> e.img[k].prims])
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = PInit
Next == \/ /\ l <= Len(Traces[tid].cmds) /\ s' = PStep(s, Traces[tid].cmds[l])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ /\ l = Len(Traces[tid].cmds) + 1 /\ Judge(tid, s, Traces[tid].obs)
           /\ l' = l + 1 /\ UNCHANGED <<tid, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
