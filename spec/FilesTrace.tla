----------------------------- MODULE FilesTrace -----------------------------
(* Validation of recorded histories of file objects (see FileHist).  A trace *)
(* is [ops, obs, emit]; obs[k] is what every file shows after k-1 operations: *)
(* a sequence of [ref, ...]: ref > 0 means "exactly as in obs[ref]" (an      *)
(* encoding that keeps traces small).                                        *)
EXTENDS FileHist, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, fs, find, bad
vars == <<tid, l, fs, find, bad>>

Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))

ObsF(t, k, f) == LET o == Traces[t].obs[k].files[f]
                 IN IF o.ref > 0 THEN Traces[t].obs[o.ref].files[f] ELSE o
Adopt(o) == [im |-> o.im, st |-> o.st, aps |-> o.aps, bb |-> o.bb, u |-> o.u, fmt |-> o.fmt,
             tp |-> 0, loose |-> FALSE, noctr |-> FALSE, ij |-> <<0, 0>>]

\* --- comparison with tolerance; the result names the first difference -------
Near(a, b, t) == a - b <= t /\ b - a <= t
PNear(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
PsNear(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : PNear(a[k], b[k], t)
SNear(a, b, loose) == Len(a) = Len(b) /\ \A k \in 1..Len(a) :
                        Near(a[k], b[k], 2 + (IF loose THEN AbsI(b[k]) \div 1000 ELSE 0))
TNear(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k], t)
SetMax(S) == CHOOSE m \in S : \A k \in S : k <= m
Org(o) == IF o.pts = <<>> THEN <<0, 0>> ELSE o.pts[1]
Extent(o) == SetMax({0} \cup UNION {{MaxI(AbsI(o.sub[k].pts[n][1] - Org(o)[1]), AbsI(o.sub[k].pts[n][2] - Org(o)[2]))
                                     : n \in 1..Len(o.sub[k].pts)} : k \in 1..Len(o.sub)})
RECURSIVE Diff(_, _, _, _, _, _)
\* e expected, o observed, tp point tolerance, tc centre tolerance
Diff(e, o, tp, tc, loose, noctr) ==
  IF e.k # o.k THEN "kind"
  ELSE IF e.fl # o.fl THEN "flags"
  ELSE IF e.pol # o.pol THEN "polarity"
  ELSE IF e.u # o.u THEN "units-tag"
  ELSE IF ~PsNear(o.pts, e.pts, tp) THEN "points"
  ELSE IF ~noctr /\ ~PsNear(o.ctr, e.ctr, tc) THEN "centre"
  ELSE IF ~(IF e.k \in {"tool", "hole", "g85", "rout", "drill", "slot"} THEN TNear(o.sz, e.sz, 2 * tp) ELSE SNear(o.sz, e.sz, loose)) THEN "sizes"
  ELSE IF Len(e.sub) # Len(o.sub) THEN "parts-count"
  ELSE LET m == e.k \in {"macro", "ap-macro"}
           tp2 == IF m /\ loose THEN tp + Extent(e) \div 300 + 3 ELSE tp
           ds == {k \in 1..Len(e.sub) : Diff(e.sub[k], o.sub[k], tp2, tc, loose, noctr) # ""}
       IN IF ds = {} THEN ""
          ELSE LET k == CHOOSE k \in ds : \A n \in ds : k <= n
               IN "part-" \o e.sub[k].k \o "-" \o Diff(e.sub[k], o.sub[k], tp2, tc, loose, noctr)
\* a drill file is written tool by tool: order across tools is not kept
RECURSIVE ByTool(_, _)
ByTool(im, aps) == IF aps = <<>> THEN <<>> ELSE SelectSeq(im, LAMBDA h : h.fl = aps[1].fl) \o ByTool(im, Tail(aps))
Images(f, im) == IF f.loose /\ \E k \in 1..Len(f.aps) : f.aps[k].k = "tool" THEN ByTool(im, f.aps) ELSE im
ImDiff(f, o) ==
  IF Len(f.im) # Len(o.im) THEN "object-count"
  ELSE LET a == Images(f, f.im)
           b == Images(f, o.im)
           D(k) == Diff(a[k], b[k], f.tp + 2, 2 * f.tp + 2, f.loose, f.noctr)
           ds == {k \in 1..Len(a) : D(k) # ""}
       IN IF Len(a) # Len(b) THEN "object-count"
          ELSE IF ds = {} THEN "" ELSE LET k == CHOOSE k \in ds : \A n \in ds : k <= n IN a[k].k \o "-" \o D(k)
ApDiff(f, o) ==
  IF Len(f.aps) # Len(o.aps) THEN "apertures-count"
  ELSE LET D(k) == Diff(f.aps[k], o.aps[k], f.tp + 2, f.tp + 2, f.loose, FALSE)
           ds == {k \in 1..Len(f.aps) : D(k) # ""}
       IN IF ds = {} THEN "" ELSE LET k == CHOOSE k \in ds : TRUE IN "aperture-" \o D(k)
ONear(a, b, t) == Len(a) = Len(b) /\ (a = <<>> \/ Near(a[1], b[1], t))
CmdDiff(c, d, tp, loose) ==
  IF c.k # d.k THEN "kind"
  ELSE IF c.t # d.t THEN "text"
  ELSE IF c.u # d.u THEN "units"
  ELSE IF ~ONear(c.x, d.x, tp) \/ ~ONear(c.y, d.y, tp) THEN "xy"
  ELSE IF Len(c.i) # Len(d.i) \/ Len(c.j) # Len(d.j) THEN "ij-presence"
  ELSE IF ~SNear(d.sz, c.sz, loose) THEN "sizes"
  ELSE ""
StDiff(f, o) ==
  IF Len(f.st) # Len(o.st) THEN "command-count"
  ELSE LET D(k) == CmdDiff(f.st[k], o.st[k], f.tp + 2, f.loose)
           ds == {k \in 1..Len(f.st) : D(k) # ""}
       IN IF ds = {} THEN "" ELSE LET k == CHOOSE k \in ds : \A n \in ds : k <= n IN "command-" \o f.st[k].k \o "-" \o D(k)
\* I/J of arc commands: as they should be / moved by the offset / otherwise
IJAll(f, o, v) == \A k \in 1..Len(f.st) : ONear(OptAdd(f.st[k].i, v[1]), o.st[k].i, f.tp + 2)
                                       /\ ONear(OptAdd(f.st[k].j, v[2]), o.st[k].j, f.tp + 2)
IJState(f, o) == IF f.noctr \/ IJAll(f, o, <<0, 0>>) THEN "" ELSE IF IJAll(f, o, f.ij) THEN "moved" ELSE "wrong"
BBDiff(f, o) == IF f.bb = <<>> THEN ""
                ELSE IF Len(o.bb) # Len(f.bb) THEN "bounding-box-missing"
                ELSE IF \A k \in 1..Len(f.bb) : Near(f.bb[k], o.bb[k], 4) THEN ""
                ELSE IF \A k \in 1..4 : Near(f.bb[k], o.bb[k], 4) THEN "extent" ELSE "bounding-box"
FileDiff(f, o) ==
  IF o.u # f.u THEN "units"
  ELSE IF o.fmt # f.fmt THEN "settings"
  ELSE LET i == ImDiff(f, o) IN IF i # "" THEN i
  ELSE LET b == BBDiff(f, o) IN IF b # "" THEN b
  ELSE LET s == StDiff(f, o) IN IF s # "" THEN s
  ELSE LET a == ApDiff(f, o) IN IF a # "" THEN a
  ELSE IF IJState(f, o) = "wrong" THEN "command-arc-ij" ELSE ""

Target(op, n) == IF op.o \in {"cinch", "cmetric", "coff", "rw"} THEN n ELSE op.f
Who(op, n, f) == IF f = Target(op, n) THEN "-" ELSE "-other-file-"

Init == tid \in 1..Len(Traces) /\ l = 1 /\ fs = <<>> /\ find = FALSE /\ bad = FALSE
Read ==
  /\ l = 1
  /\ IF Traces[tid].obs[1].err # ""
     THEN /\ Verdict(tid, FALSE, "read-raised", [error |-> Traces[tid].obs[1].err]) /\ bad' = TRUE /\ UNCHANGED fs
     ELSE LET o == ObsF(tid, 1, 1)
          IN IF \E k \in 1..Len(o.im) : Tagged(o.im[k], o.u) # o.im[k]
             THEN Verdict(tid, FALSE, "read-units-tag", [u |-> o.u]) /\ bad' = TRUE /\ UNCHANGED fs
             ELSE fs' = <<Adopt(o)>> /\ UNCHANGED bad
  /\ l' = 2 /\ UNCHANGED <<tid, find>>
Step ==
  /\ ~bad /\ l > 1 /\ l <= Len(Traces[tid].ops) + 1
  /\ LET op == Traces[tid].ops[l - 1]
         ob == Traces[tid].obs[l]
     IN IF ob.err # ""
        THEN /\ Verdict(tid, FALSE, op.o \o "-raised", [at |-> l - 1, op |-> op, error |-> ob.err])
             /\ bad' = TRUE /\ UNCHANGED <<fs, find>>
        ELSE LET nfs == StepF(fs, op, IF op.o = "poke" THEN [Adopt(ObsF(tid, l, op.f)) EXCEPT !.bb = <<>>] ELSE <<>>)
                 D(k) == FileDiff(nfs[k], ObsF(tid, l, k))
                 ds == {k \in 1..Len(nfs) : (op.o # "poke" \/ k # op.f) /\ D(k) # ""}
             IN IF ds # {}
                THEN LET k == CHOOSE k \in ds : \A n \in ds : k >= n
                     IN /\ Verdict(tid, FALSE, op.o \o Who(op, Len(nfs), k) \o D(k), [at |-> l - 1, op |-> op, file |-> k])
                        /\ bad' = TRUE /\ UNCHANGED <<fs, find>>
                ELSE IF op.o = "rw" /\ ~ob.same
                THEN /\ Verdict(tid, FALSE, "rw-text-differs", [at |-> l - 1, op |-> op])
                     /\ bad' = TRUE /\ UNCHANGED <<fs, find>>
                ELSE /\ fs' = nfs /\ UNCHANGED bad
                     /\ find' = (find \/ \E k \in 1..Len(nfs) : (op.o # "poke" \/ k # op.f) /\ IJState(nfs[k], ObsF(tid, l, k)) = "moved")
  /\ l' = l + 1 /\ UNCHANGED tid
End ==
  /\ ~bad /\ l = Len(Traces[tid].ops) + 2
  /\ IF find THEN Verdict(tid, FALSE, "arc-ij-moved-by-offset", [f |-> 1]) ELSE Verdict(tid, TRUE, "", [f |-> Len(fs)])
  /\ l' = l + 1 /\ UNCHANGED <<tid, fs, find, bad>>
Next == Read \/ Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
