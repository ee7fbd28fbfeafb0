----------------------------- MODULE WriterTrace -----------------------------
(* Judges recorded renderings.  A trace is                                  *)
(*  objs  the objects before rendering,                                      *)
(*  gen   the commands of the generated text (independent scanner; a macro   *)
(*        aperture comes with the shape it has when the file is read),       *)
(*  obs   the objects when the generated file is read again,                 *)
(*  same  whether rendering left the objects alone.                          *)
(* The commands are executed by the reader of Gerber.tla.                    *)
EXTENDS Writer, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, g
vars == <<tid, l, g>>

Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))

AbsI(n) == IF n < 0 THEN -n ELSE n
Near(a, b, t) == a - b <= t /\ b - a <= t
\* sizes are written with four significant digits
SNear(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], t + AbsI(a[k]) \div 1000)
IsMacro(a) == a.n = -1
Ext(a) == IF a.s = <<>> THEN 0 ELSE LET S == {AbsI(a.s[k]) : k \in 1..Len(a.s)} IN CHOOSE m \in S : \A n \in S : n <= m
ApNear(a, b) == /\ a.sh = b.sh /\ a.n = b.n /\ a.rot = b.rot /\ SNear(a.h, b.h, 2)
                /\ SNear(a.s, b.s, IF IsMacro(a) THEN 2 + Ext(a) \div 1000 ELSE 2)
Twins(a, b) == a.sh = b.sh /\ a.n = b.n /\ a.rot = b.rot /\ a.h = b.h
               /\ Len(a.s) = Len(b.s) /\ \A k \in 1..Len(a.s) : Near(a.s[k], b.s[k], IF IsMacro(a) THEN 2 ELSE 0)
SegDiff(a, b) ==
  IF a.k # b.k THEN "kind"
  ELSE IF a.s # b.s THEN "start"
  ELSE IF a.e # b.e THEN "end"
  ELSE IF a.k = "line" THEN ""
  ELSE IF a.ctr # b.ctr THEN "centre"
  ELSE IF a.dir # b.dir THEN "direction"
  ELSE IF a.q # b.q THEN "quadrant-mode" ELSE ""
FirstOf(S) == CHOOSE k \in S : \A n \in S : k <= n
ObjDiff(a, b) ==
  IF a.k # b.k THEN "kind"
  ELSE IF a.pol # b.pol THEN "polarity"
  ELSE IF a.u # b.u THEN "units"
  ELSE CASE a.k = "flash" -> IF a.p # b.p THEN "position" ELSE IF ApNear(a.ap, b.ap) THEN "" ELSE "aperture"
         [] a.k = "region" -> IF Len(a.segs) # Len(b.segs) THEN "segments"
                              ELSE LET ds == {k \in 1..Len(a.segs) : SegDiff(a.segs[k], b.segs[k]) # ""}
                                   IN IF ds = {} THEN "" ELSE "segment-" \o SegDiff(a.segs[FirstOf(ds)], b.segs[FirstOf(ds)])
         [] a.k \in {"line", "arc"} -> LET d == SegDiff(a, b)
                                       IN IF d # "" THEN d ELSE IF ApNear(a.ap, b.ap) THEN "" ELSE "aperture"
         [] OTHER -> "kind"
ImgDiff(e, o) ==
  LET n  == IF Len(e) < Len(o) THEN Len(e) ELSE Len(o)
      ds == {k \in 1..n : ObjDiff(e[k], o[k]) # ""}
  IN IF ds # {} THEN LET k == FirstOf(ds) IN [c |-> e[k].k \o "-" \o ObjDiff(e[k], o[k]), at |-> k, e |-> <<e[k]>>, o |-> <<o[k]>>]
     ELSE IF Len(e) > n THEN [c |-> "missing-" \o e[n + 1].k, at |-> n + 1, e |-> <<e[n + 1]>>, o |-> <<>>]
     ELSE IF Len(o) > n THEN [c |-> "extra-" \o o[n + 1].k, at |-> n + 1, e |-> <<>>, o |-> <<o[n + 1]>>]
     ELSE [c |-> "", at |-> 0, e |-> <<>>, o |-> <<>>]
Doubled(aps) == {p \in (1..Len(aps)) \X (1..Len(aps)) : p[1] < p[2] /\ (aps[p[1]][1] = aps[p[2]][1] \/ Twins(aps[p[1]][2], aps[p[2]][2]))}

Judge(t, gg) ==
  LET r == Traces[t]
      objs == Norm(r.objs)
  IN IF r.err # "" THEN Verdict(t, FALSE, r.stage \o "-raised", [error |-> r.err])
     ELSE IF gg.bad > 0 THEN Verdict(t, FALSE, "ill-formed-" \o r.gen[gg.bad].c, [at |-> gg.bad, cmd |-> r.gen[gg.bad]])
     ELSE LET d1 == ImgDiff(objs, Norm(gg.img))
              d2 == ImgDiff(objs, Norm(r.obs))
          IN IF gg.units # r.units THEN Verdict(t, FALSE, "text-units", [u |-> gg.units])
             ELSE IF d1.c # "" THEN Verdict(t, FALSE, "text-" \o d1.c, d1)
             ELSE IF gg.region \/ gg.contour # <<>> THEN Verdict(t, FALSE, "text-open-region", [n |-> 0])
             ELSE IF d2.c # "" THEN Verdict(t, FALSE, "reread-" \o d2.c, d2)
             ELSE IF Doubled(gg.aps) # {} THEN Verdict(t, FALSE, "aperture-defined-twice", LET p == CHOOSE p \in Doubled(gg.aps) : TRUE IN [a |-> gg.aps[p[1]], b |-> gg.aps[p[2]]])
             ELSE IF ~r.same THEN Verdict(t, FALSE, "objects-changed-by-rendering", [n |-> 0])
             ELSE Verdict(t, TRUE, "", [n |-> Len(objs)])

Ok(gg, cm) == WellFormed(gg, cm)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ g = GInit @@ [bad |-> 0]
Next == \/ /\ l <= Len(Traces[tid].gen)
           /\ LET cm == Traces[tid].gen[l]
              IN g' = IF g.bad > 0 THEN g
                      ELSE IF Ok(g, cm) THEN Step(g, cm) ELSE [g EXCEPT !.bad = l]
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ /\ l = Len(Traces[tid].gen) + 1
           /\ Judge(tid, g)
           /\ l' = l + 1 /\ UNCHANGED <<tid, g>>
Spec == Init /\ [][Next]_vars
=============================================================================
