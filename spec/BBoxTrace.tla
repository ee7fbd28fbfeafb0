------------------------------ MODULE BBoxTrace ------------------------------
(* Validation of recorded queries of bounding boxes.  A trace is either       *)
(* [k |-> "hist", obj, ops, obs] - obs holds one observation per query, or    *)
(* [k |-> "file", objs, obs, fbox] - objects of a file, their boxes and the   *)
(* box of the file.                                                           *)
EXTENDS BBox, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, o, q
vars == <<tid, l, o, q>>
Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))

Tol(x) == CASE x.k = "ellipse" /\ Turned(x) -> 12
            [] x.k \in {"hexdonut"} -> 6
            [] x.rot[3] >= 1000 -> 4 + MaxOf({0} \cup {AbsB(x.sz[k]) : k \in 1..Len(x.sz)}) \div 400
            [] OTHER -> 4
RECURSIVE TolD(_)
TolD(x) == MaxOf({IF x.k \in {"line", "arc", "region", "outline", "group"} THEN 4 ELSE Tol(x)}
                 \cup (IF x.k \in {"region", "line", "arc"} THEN {} ELSE {TolD(x.sub[k]) : k \in 1..Len(x.sub)}))
NearB(b, c, t) == Len(b) = 4 /\ \A k \in 1..4 : b[k] - c[k] <= t /\ c[k] - b[k] <= t
\* b reaches at least to c
Covers(b, c, t) == Len(b) = 4 /\ b[1] <= c[1] + t /\ b[2] >= c[2] - t /\ b[3] <= c[3] + t /\ b[4] >= c[4] - t
Fits(x, b) == LET t == TolD(x) IN Covers(b, InnerBox(x), t) /\ Covers(Box(x), b, t)
Why(x, b) == IF ~Covers(b, InnerBox(x), TolD(x)) THEN "not-enclosing" ELSE "not-tight"

\* the verdict on one object and one observation
Bad(x, w) ==
  IF w.err # "" THEN "raised"
  ELSE IF w.u # x.u THEN "units"
  ELSE IF ~NearB(w.box, w.fresh, 1) THEN "stale"
  ELSE IF ~NearB(w.bare, w.freshbare, 1) THEN "stale-bare"
  ELSE IF ~Judgeable(x) THEN ""
  ELSE IF ~Fits(x, w.box) THEN Why(x, w.box)
  ELSE IF ~(IF x.k \in {"line", "arc"} THEN NearB(w.bare, BareBox(x), 4) ELSE Fits(x, w.bare)) THEN "bare"
  ELSE ""

T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ q = 0 /\ o = IF Traces[tid].k = "hist" THEN Traces[tid].obj ELSE <<>>
HistStep ==
  /\ T.k = "hist" /\ l > 0 /\ l <= Len(T.ops)
  /\ LET op == T.ops[l] o2 == Apply(o, op)
     IN IF q < Len(T.obs) /\ T.obs[q + 1].at = l /\ Bad(o2, T.obs[q + 1]) # ""
        THEN /\ Verdict(tid, FALSE, o2.k \o "-" \o Bad(o2, T.obs[q + 1]),
                        [at |-> l, op |-> op, expected |-> IF Judgeable(o2) THEN Box(o2) ELSE <<>>, observed |-> T.obs[q + 1]])
             /\ l' = 0 /\ UNCHANGED <<o, q>>
        ELSE o' = o2 /\ l' = l + 1 /\ q' = IF q < Len(T.obs) /\ T.obs[q + 1].at = l THEN q + 1 ELSE q
HistEnd ==
  /\ T.k = "hist" /\ l = Len(T.ops) + 1
  /\ IF q = Len(T.obs) /\ q > 0 THEN Verdict(tid, TRUE, "", [n |-> q]) ELSE Verdict(tid, FALSE, "missing-query", [n |-> q])
  /\ l' = 0 /\ UNCHANGED <<o, q>>
File ==
  /\ T.k = "file" /\ l = 1
  /\ LET bad == {k \in 1..Len(T.objs) : Bad(T.objs[k], T.obs[k]) # ""}
     IN IF bad # {} THEN LET k == MinOf(bad)
                         IN Verdict(tid, FALSE, "file-" \o T.objs[k].k \o "-" \o Bad(T.objs[k], T.obs[k]),
                                    [at |-> k, obj |-> T.objs[k], expected |-> Box(T.objs[k]), observed |-> T.obs[k]])
        ELSE IF T.objs = <<>> THEN Verdict(tid, TRUE, "", [n |-> 0])
        ELSE LET e == Union2([k \in 1..Len(T.objs) |-> T.obs[k].box])
             IN IF NearB(T.fbox, e, 1) THEN Verdict(tid, TRUE, "", [n |-> Len(T.objs)])
                ELSE Verdict(tid, FALSE, "file-box", [expected |-> e, observed |-> T.fbox])
  /\ l' = 0 /\ UNCHANGED <<o, q>>
Next == (HistStep \/ HistEnd \/ File) /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
