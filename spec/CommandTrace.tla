---------------------------- MODULE CommandTrace ----------------------------
(* Validation of the pictures the command line makes.  A trace is one         *)
(* picture, or the list of pictures made:                                      *)
(* [c, view, files, bs, thm, bg, mx, m, obs].  files: what the directory holds *)
(* (or the command line lists), each with its name and its content as in       *)
(* RasterTrace; bs: the extent of each file, <<>> if unknown; thm: colours.    *)
EXTENDS RasterTrace
B == INSTANCE Board
C == INSTANCE Command
\* unreadable files are no layers
Layered(fs) == SelectSeq([k \in 1..Len(fs) |-> k], LAMBDA k : fs[k].kind \in B!Readable)
ClassOf(f) == LET s == B!Possible(f, f.kind) IN IF Cardinality(s) = 1 THEN CHOOSE c \in s : TRUE ELSE "?"
LayersOf(fs) == [k \in 1..Len(fs) |-> [cls |-> IF fs[k].kind \in B!Readable THEN ClassOf(fs[k]) ELSE "none",
                                       num |-> B!NumberOf(fs[k]), sides |-> {"top", "bottom"}]]
Shown(ls, tr) == IF tr.view = "list" THEN Layered(tr.files) ELSE C!Picture(ls, tr.view)
Dress(ls, ks, n, tr) ==
  LET f == tr.files[ks[n]]
      cls == ls[ks[n]].cls
      col == IF cls = "internal" THEN tr.thm.internal[C!Turn(ls, ks, n)] ELSE IF cls \in DOMAIN tr.thm THEN tr.thm[cls] ELSE tr.thm.other
  IN [objs |-> Objects(f.body), invert |-> C!Inverted(cls), mirror |-> C!Mirrored(cls, tr.view), color |-> col.color, alpha |-> col.alpha]
Bounded(bs) == SelectSeq(bs, LAMBDA b : b # <<>>)
\* a picture whose lowest layer has no extent shows nothing
NoExtent(b) == b = <<>> \/ b[2] <= b[1] \/ b[4] <= b[3]
Blind(tr, ls) == IF tr.view = "list" THEN NoExtent(tr.bs[1]) ELSE \E v \in C!Made(ls) : NoExtent(tr.bs[C!Picture(ls, v)[1]])
\* FINDING (outline-unmirrored): what lies under the first layer of the bottom side is shown as from the top
Late(ls, ks, l) == [n \in 1..Len(l) |-> [l[n] EXCEPT !.mirror = \E j \in 1..n : ls[ks[j]].cls \in C!Below]]
PictureVerdict(t, tr, ls, ks) ==
  LET bs == Bounded([n \in 1..Len(ks) |-> tr.bs[ks[n]]])
      fb == tr.bs[ks[1]]
      fr0 == [x |-> fb[1], y |-> fb[3], w |-> fb[2] - fb[1], h |-> fb[4] - fb[3], num |-> tr.mx[3], den |-> 300]
      ss == {s \in Scales(bs, tr.mx) : PixelsOK(fr0.w, tr.obs.w, [fr0 EXCEPT !.den = s]) /\ PixelsOK(fr0.h, tr.obs.h, [fr0 EXCEPT !.den = s])}
  IN IF NoExtent(fb) THEN V(t, TRUE, "", [n |-> 0, decided |-> 0])
     ELSE IF tr.view # "list" /\ ss = {} THEN V(t, FALSE, "picture-size", [bounds |-> bs, max |-> tr.mx, observed |-> <<tr.obs.w, tr.obs.h>>])
     ELSE \E l \in {[n \in 1..Len(ks) |-> Dress(ls, ks, n, tr)]} :
            \E s \in {IF tr.view = "list" THEN 300 ELSE CHOOSE s \in ss : TRUE} :
              Judge(t, [fr |-> [fr0 EXCEPT !.den = s], mx |-> <<>>, bounds |-> bs, mode |-> "layer", bg |-> tr.bg, m |-> tr.m, ink |-> 0, mixed |-> FALSE, obs |-> tr.obs], l,
                    IF tr.view = "list" THEN <<<<"mirror-stays", Stuck(l)>>>>
                    ELSE IF tr.view = "bottom" THEN <<<<"outline-unmirrored", Late(ls, ks, l)>>>> ELSE <<>>)
Rng(s) == {s[k] : k \in 1..Len(s)}
JudgeC(t, tr, ls) ==
  IF \E k \in 1..Len(ls) : ls[k].cls = "?" THEN V(t, FALSE, "unclear-name", [files |-> [k \in 1..Len(ls) |-> tr.files[k].toks]])
  ELSE IF tr.obs.err # "" /\ Blind(tr, ls) THEN V(t, TRUE, "", [n |-> 0, decided |-> 0])
  ELSE IF tr.obs.err # "" THEN V(t, FALSE, "command-failed", [error |-> tr.obs.err])
  ELSE IF tr.c = "made"
       THEN LET e == IF tr.view = "list" THEN {"list"} ELSE C!Made(ls)
            IN V(t, Rng(tr.obs.made) = e, "pictures-made", [expected |-> e, observed |-> tr.obs.made])
  ELSE \E ks \in {Shown(ls, tr)} : PictureVerdict(t, tr, ls, ks)
NextC == /\ tid[2] = 0 /\ tid' = <<tid[1], 1>>
         /\ \E tr \in {Traces[tid[1]]} : \E ls \in {LayersOf(tr.files)} : JudgeC(tid[1], tr, ls)
SpecC == Init /\ [][NextC]_tid
=============================================================================
