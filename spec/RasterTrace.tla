----------------------------- MODULE RasterTrace -----------------------------
(* Validation of pictures.  A trace is [layers, fr, mx, bg, m, ink, obs]:     *)
(* what was rendered, the part of the board shown, and samples of the picture *)
(* the implementation made.  A layer's objects are given as areas, or as the  *)
(* program of the file it was read from: a Gerber program, a macro program or *)
(* a drill program, whose meaning is the one Gerber, Macro and Excellon give. *)
EXTENDS Raster, TLC, Json, IOUtils
G == INSTANCE Gerber
M == INSTANCE Macro
X == INSTANCE Excellon

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE tid
V(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))

Area(k, pts, sz, pol) == [k |-> k, pts |-> pts, sz |-> sz, hole |-> <<>>, n |-> 0, rot |-> 0, dir |-> "", q |-> "",
                          sub |-> <<>>, pol |-> pol]

\* --- objects of a Gerber image ---------------------------------------------------
Max2(a, b) == IF a > b THEN a ELSE b
\* what a draw with an aperture the model does not render may cover at most
Blur(a, pol, sz) == [a EXCEPT !.k = "blur", !.sub = <<[a EXCEPT !.sz = <<sz>>]>>]
Flashed(o) ==
  LET ap == o.ap
      b(k) == [Area(k, <<o.p>>, ap.s, o.pol) EXCEPT !.hole = ap.h]
  IN CASE ap.sh = "C" -> b("disc") [] ap.sh = "R" -> b("rect") [] ap.sh = "O" -> b("obround")
       [] Len(ap.h) = 2 /\ ap.rot # 0 -> Blur(Area("cap", <<o.p, o.p>>, ap.s, o.pol), o.pol, ap.s[1])
       [] OTHER -> [b("poly") EXCEPT !.n = ap.n, !.rot = ap.rot]
Reach(ap) == CASE ap.sh \in {"C", "P"} -> ap.s[1] + 4 [] OTHER -> ap.s[1] + ap.s[2]
Stroke(o) ==
  LET ap == o.ap
      a == Area(IF o.k = "line" THEN "cap" ELSE "arc", IF o.k = "line" THEN <<o.s, o.e>> ELSE <<o.s, o.e, o.ctr>>, ap.s, o.pol)
      b == IF o.k = "line" THEN a ELSE [a EXCEPT !.dir = o.dir, !.q = o.q]
  IN IF ap.sh = "C" /\ ap.h = <<>> THEN b
     ELSE IF ap.sh = "R" /\ ap.h = <<>> /\ o.k = "line" THEN [b EXCEPT !.k = "sweep"]
     ELSE Blur(b, o.pol, IF o.k = "line" THEN Reach(ap) ELSE 2 * Reach(ap))
Segment(s) ==
  IF s.k = "line" THEN Area("line", <<s.s, s.e>>, <<0>>, "dark")
  ELSE [Area("arc", <<s.s, s.e, s.ctr>>, <<0>>, "dark") EXCEPT !.dir = s.dir, !.q = s.q]
FromGerber(img) ==
  [k \in 1..Len(img) |->
     CASE img[k].k = "flash"  -> Flashed(img[k])
       [] img[k].k = "region" -> [Area("contour", <<>>, <<>>, img[k].pol) EXCEPT !.sub = [n \in 1..Len(img[k].segs) |-> Segment(img[k].segs[n])]]
       [] OTHER -> Stroke(img[k])]

\* --- macro flashes: grid of 1/1000, shown in steps of u ------------------------------
Div(n, u) == (2 * n + u) \div (2 * u)
DivP(p, q, u) == <<Div(p[1] + q[1], u), Div(p[2] + q[2], u)>>
MPart(sh, p, u) ==
  LET at == IF sh.pts = <<>> THEN <<0, 0>> ELSE DivP(sh.pts[1], p, u)
  IN CASE sh.k = "circle"  -> Area("disc", <<at>>, <<Div(sh.z[1], u)>>, sh.pol)
       [] sh.k = "polygon" -> [Area("poly", <<at>>, <<Div(sh.z[1], u)>>, sh.pol) EXCEPT !.n = sh.z[2], !.rot = sh.z[3]]
       [] sh.k = "thermal" -> [Area("thermal", <<at>>, [k \in 1..3 |-> Div(sh.z[k], u)], sh.pol) EXCEPT !.rot = 15 * sh.z[4]]
       [] OTHER -> LET n == Len(sh.pts)
                       c(k) == DivP(sh.pts[((k - 1) % n) + 1], p, u)
                   IN [Area("contour", <<>>, <<>>, sh.pol) EXCEPT !.sub = [k \in 1..n |-> Area("line", <<c(k), c(k + 1)>>, <<0>>, "dark")]]
FromMacro(img, u) ==
  [k \in 1..Len(img) |-> [Area("group", <<>>, <<>>, "dark") EXCEPT
     !.sub = [n \in 1..Len(img[k].prims) |-> MPart(M!Shape(img[k].prims[n]), img[k].p, u)]]]
RECURSIVE MRunP(_, _)
MRunP(s, cs) == IF cs = <<>> THEN s ELSE MRunP(M!PStep(s, Head(cs)), Tail(cs))

\* --- drill hits: positions times k, diameters in nanometres, u per grid unit ----------
DiaOf(f, h, u) == Div(X!Get(f.tools, h.t).d, u)
FromDrill(f, k, u) ==
  [n \in 1..Len(f.hits) |->
     LET h == f.hits[n]
         p == [j \in 1..Len(h.pts) |-> <<k * h.pts[j][1], k * h.pts[j][2]>>]
     IN Area(IF Len(p) = 1 THEN "disc" ELSE "cap", p, <<DiaOf(f, h, u)>>, "dark")]

Objects(ly) ==
  CASE ly.src = "gerber" -> FromGerber(G!Run(G!GInit, ly.cmds).img)
    [] ly.src = "macro"  -> FromMacro(MRunP(M!PInit, ly.cmds).img, ly.u)
    [] ly.src = "drill"  -> FromDrill(X!XRun(X!XInit(ly.ext), ly.cmds), ly.g, ly.u)
    [] OTHER -> ly.objs
Known(ly) == [objs |-> Objects(ly), invert |-> ly.invert, mirror |-> ly.mirror, color |-> ly.color, alpha |-> ly.alpha]

\* --- the frame of a picture of several layers ---------------------------------------
\* bounds: <<x0, x1, y0, y1>> of each layer; mx: <<width, height, grid units per unit of length>>
MinS(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxS(S) == CHOOSE a \in S : \A b \in S : a >= b
Scales(bs, mx) ==
  LET w == MaxS({bs[k][2] : k \in 1..Len(bs)}) - MinS({bs[k][1] : k \in 1..Len(bs)})
      h == MaxS({bs[k][4] : k \in 1..Len(bs)}) - MinS({bs[k][3] : k \in 1..Len(bs)})
      a == (mx[1] * mx[3]) \div w   b == (mx[2] * mx[3]) \div h
      s == IF a < b THEN a ELSE b
  IN {s} \cup (IF (a = s /\ a * w = mx[1] * mx[3]) \/ (b = s /\ b * h = mx[2] * mx[3]) THEN {s - 1} ELSE {})

\* number of pixels that show n grid units
PixelsOK(n, seen, fr) ==        \* the last pixel may be shown in part; a length of whole pixels may round either way
  LET q == n * fr.den IN /\ seen * fr.num >= q - fr.num \div 50 - 1
                         /\ (seen - 1) * fr.num <= q + fr.num \div 50 + 1

\* FINDING (mirror-stays): once a mirrored layer was painted, the ones behind it are mirrored as well
Stuck(ls) == [k \in 1..Len(ls) |-> [ls[k] EXCEPT !.mirror = \E j \in 1..k : ls[j].mirror]]
Close(a, b) == \A k \in 1..3 : AbsR(a[k] - b[k]) <= 4
\* alts: what it would be with a finding, <<name, layers>>
Judge(t, tr, layers, alts) ==
  LET o == tr.obs
      fr == IF tr.mx = <<>> THEN tr.fr ELSE [tr.fr EXCEPT !.den = o.scale]
  IN
  IF tr.mode = "cam" /\ layers[1].objs = <<>> THEN V(t, TRUE, "", [n |-> 0, decided |-> 0])     \* an empty file has no bounds
  ELSE IF tr.mx # <<>> /\ tr.bounds # <<>> /\ (tr.bounds[1][2] <= tr.bounds[1][1] \/ tr.bounds[1][4] <= tr.bounds[1][3])
       THEN V(t, TRUE, "", [n |-> 0, decided |-> 0])                                            \* nothing to look at
  ELSE IF o.err # "" THEN V(t, FALSE, "render-raised", [error |-> o.err])
  ELSE IF tr.mx # <<>> /\ o.scale \notin Scales(tr.bounds, tr.mx)
       THEN V(t, FALSE, "picture-scale", [expected |-> Scales(tr.bounds, tr.mx), observed |-> o.scale])
  ELSE IF ~PixelsOK(fr.w, o.w, fr) \/ ~PixelsOK(fr.h, o.h, fr)
       THEN V(t, FALSE, "picture-size", [frame |-> fr, observed |-> <<o.w, o.h>>])
  ELSE IF ~o.same THEN V(t, FALSE, "picture-repeat", [w |-> o.w])
  ELSE The({ LET bad == {k \in 1..Len(o.px) : cs[k] # <<>> /\ ~Close(cs[k], o.px[k][3])}
                 same == IF bad = {} THEN {}
                         ELSE {n \in 1..Len(alts) : /\ alts[n][2] # layers
                                                    /\ \A k \in 1..Len(o.px) : LET c == Colour(tr.bg, alts[n][2], fr, tr.m, o.px[k][1], o.px[k][2])
                                                                              IN c = <<>> \/ Close(c, o.px[k][3])}
             IN IF same # {} THEN V(t, FALSE, alts[CHOOSE n \in same : \A j \in same : n <= j][1],
                                    [bad |-> Cardinality(bad), of |-> Len(o.px), mirror |-> [k \in 1..Len(layers) |-> layers[k].mirror]])
                ELSE IF bad # {} /\ tr.mixed THEN V(t, FALSE, "mixed-units", [bad |-> Cardinality(bad), of |-> Len(o.px)])
                ELSE IF bad # {}
                THEN LET k == CHOOSE k \in bad : TRUE
                     IN V(t, FALSE, "pixel", [bad |-> Cardinality(bad), of |-> Len(o.px), at |-> <<o.px[k][1], o.px[k][2]>>, expected |-> cs[k],
                              observed |-> o.px[k][3],
                              layers |-> [n \in 1..Len(layers) |-> LET p == At(fr, layers[n].mirror, o.px[k][1], o.px[k][2])
                                         IN [p |-> p, state |-> Point(layers[n], p, tr.m),
                                             by |-> {j \in 1..Len(layers[n].objs) : Cover(layers[n].objs[j], p, tr.m) # "out"}]]])
                ELSE IF tr.ink # 0 /\ AreaOf(layers[1].objs[1]) # 0
                     THEN LET e == (AreaOf(layers[1].objs[1]) * 100) \div tr.ink          \* 1/100 pixels
                          IN V(t, AbsR(o.ink - e) <= e \div 12 + 60, "ink", [expected |-> e, observed |-> o.ink])
                     ELSE V(t, TRUE, "", [n |-> Len(o.px), decided |-> Cardinality({k \in 1..Len(o.px) : cs[k] # <<>>})]) :
             cs \in { [k \in 1..Len(o.px) |-> Colour(tr.bg, layers, fr, tr.m, o.px[k][1], o.px[k][2])] } })

Init == tid \in (1..Len(Traces)) \X {0}
Next == /\ tid[2] = 0 /\ tid' = <<tid[1], 1>>
        /\ \E tr \in {Traces[tid[1]]} : \E ls \in {[k \in 1..Len(tr.layers) |-> Known(tr.layers[k])]} : Judge(tid[1], tr, ls, <<<<"mirror-stays", Stuck(ls)>>>>)
Spec == Init /\ [][Next]_tid
=============================================================================
