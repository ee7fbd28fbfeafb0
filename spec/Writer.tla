------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Re-generating Gerber from graphic objects: the writer as a state        *)
(* machine over objects.  It remembers what a reader of its output knows   *)
(* (current point, interpolation, quadrant mode, aperture, polarity) and   *)
(* emits only the commands that are needed.  Aperture definitions are      *)
(* collected apart, in front of the body: one per distinct descriptor.     *)
(*                                                                         *)
(* A zero-length line adds nothing and is left out; the sequence of        *)
(* objects without those is the normal form Norm.                          *)
(***************************************************************************)
EXTENDS Gerber

Unset == "-"
WInit == [pos |-> <<>>, func |-> Unset, quad |-> Unset, pol |-> Unset, d |-> 0, aps |-> <<>>]

\* --- normal form of an image ----------------------------------------------
ZeroLine(s) == s.k = "line" /\ s.s = s.e
KeepSeg(s) == ~ZeroLine(s)
NormObj(o) == IF o.k = "region" THEN [o EXCEPT !.segs = SelectSeq(@, KeepSeg)] ELSE o
KeepObj(o) == ~ZeroLine(o) /\ (o.k = "region" => o.segs # <<>>)
Norm(img) == SelectSeq([k \in 1..Len(img) |-> NormObj(img[k])], KeepObj)

\* --- the writer -------------------------------------------------------------
\* every action takes and returns [w, out]
Emit(r, cm) == [r EXCEPT !.out = Append(@, cm)]
Code(w, ap) == IF \E k \in 1..Len(w.aps) : w.aps[k] = ap
               THEN 9 + (CHOOSE k \in 1..Len(w.aps) : w.aps[k] = ap)
               ELSE 10 + Len(w.aps)
Use(r, ap) ==
  LET c  == Code(r.w, ap)
      r1 == IF c = 10 + Len(r.w.aps) THEN [r EXCEPT !.w.aps = Append(@, ap)] ELSE r
  IN IF c = r.w.d THEN r1 ELSE Emit([r1 EXCEPT !.w.d = c], [c |-> "SEL", d |-> c])
Polarity(r, p) == IF r.w.pol = p THEN r ELSE Emit([r EXCEPT !.w.pol = p], [c |-> "LP", pol |-> p])
Quadrant(r, q) == IF r.w.quad = q THEN r ELSE Emit([r EXCEPT !.w.quad = q], [c |-> "QUAD", m |-> q])
Dif(w, p) == IF w.pos = <<>> THEN << <<p[1]>>, <<p[2]>> >>
             ELSE << IF p[1] = w.pos[1] THEN <<>> ELSE <<p[1]>>, IF p[2] = w.pos[2] THEN <<>> ELSE <<p[2]>> >>
At(w, p) == w.pos = p
WCo(f, x, y, i, j, o) == [c |-> "CO", f |-> f, x |-> x, y |-> y, i |-> i, j |-> j, o |-> o]
To(r, f, p, i, j, o) == LET xy == Dif(r.w, p)
                        IN Emit([r EXCEPT !.w.pos = p], WCo(f, xy[1], xy[2], i, j, o))

\* (The({F(x) : x \in {e}}) is F(e) with e evaluated once)
The(S) == CHOOSE x \in S : TRUE
LineEnd(r2, f2, s) ==
  IF s.s # s.e THEN To(r2, f2, s.e, <<>>, <<>>, "D01")
  ELSE IF f2 # "" THEN Emit(r2, WCo(f2, <<>>, <<>>, <<>>, <<>>, "")) ELSE r2
LineSeg(r, s) ==
  LET f == IF r.w.func = "G01" THEN "" ELSE "G01"
  IN IF At(r.w, s.s) THEN LineEnd([r EXCEPT !.w.func = "G01"], f, s)
     ELSE The({LineEnd(r2, "", s) : r2 \in {To([r EXCEPT !.w.func = "G01"], f, s.s, <<>>, <<>>, "D02")}})
ArcSeg(r, s) ==
  LET f  == IF s.dir = "clockwise" THEN "G02" ELSE "G03"
      ij == Sub(s.ctr, s.s)
  IN The({ The({ To(r2, f, s.e, <<ij[1]>>, <<ij[2]>>, "D01") :
                 r2 \in {IF At(r1.w, s.s) THEN r1 ELSE To(r1, "G01", s.s, <<>>, <<>>, "D02")} }) :
           r1 \in {Quadrant([r EXCEPT !.w.func = f], s.q)} })
SegW(r, s) == IF s.k = "line" THEN LineSeg(r, s) ELSE ArcSeg(r, s)

RECURSIVE Segs(_, _)
Segs(r, ss) == IF ss = <<>> THEN r ELSE The({Segs(x, Tail(ss)) : x \in {SegW(r, Head(ss))}})
RegionW(r, o) == Emit(The({Segs(x, o.segs) : x \in {Emit(Polarity(r, o.pol), [c |-> "REG", on |-> TRUE])}}),
                      [c |-> "REG", on |-> FALSE])
FlashW(r, o) == The({To(x, "", o.p, <<>>, <<>>, "D03") : x \in {Use(Polarity(r, o.pol), o.ap)}})
DrawW(r, o) == The({SegW(x, o) : x \in {Polarity(Use(r, o.ap), o.pol)}})

\* one object: writer state after it and commands emitted for it
WStep(w, o) ==
  LET r == [w |-> w, out |-> <<>>]
  IN CASE o.k = "region" -> RegionW(r, o)
       [] o.k = "flash"  -> FlashW(r, o)
       [] OTHER          -> DrawW(r, o)
\* the arc of a region leaves the reader in linear interpolation
Header(w, u) == <<[c |-> "MO", u |-> u]>> \o [k \in 1..Len(w.aps) |-> [c |-> "AD", d |-> 9 + k, ap |-> w.aps[k]]]
=============================================================================
