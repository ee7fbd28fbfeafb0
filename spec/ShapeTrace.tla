----------------------------- MODULE ShapeTrace -----------------------------
(* Validation of recorded questions about objects.  A trace is               *)
(* [k |-> "hist", obj, ops, obs] with one observation per query, or          *)
(* [k |-> "pair", pair, obs] with the answers about two objects.             *)
EXTENDS Shape, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, o, q
vars == <<tid, l, o, q>>
Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))

SamePoints(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near2(a[i], b[i], 4)
\* the corners of an outline are its joints
Joints(x) == [i \in 1..Len(x.sub) |-> x.sub[i].pts[1]]
Exact(x) == x.k \in Straight \ {"polygon"} \/ (x.k = "line" /\ x.sub[1].k = "rectangle")
\* every segment joins two corners, every edge of the area is among them
SegsOk(n, segs) == /\ \A i \in 1..Len(segs) : segs[i][1] \in 1..n /\ segs[i][2] \in 1..n /\ segs[i][1] # segs[i][2]
                   /\ \A i \in 1..n : \E s \in 1..Len(segs) : {segs[s][1], segs[s][2]} = {i, IF i = n THEN 1 ELSE i + 1}
Bad(x, w) ==
  IF w.err # "" THEN "raised"
  ELSE IF ~w.same THEN "equal-twin"
  ELSE IF w.moved THEN "equal-moved"
  ELSE IF Cornered(x) THEN
         IF ~AreCorners(w.vs, Points(x), IF Exact(x) THEN 4 ELSE 12, IF Exact(x) THEN 1 ELSE 2) THEN "corners"
         ELSE IF ~SegsOk(Len(w.vs), w.segs) THEN "segments" ELSE ""
  ELSE IF x.k = "outline" /\ ~SamePoints(w.vs, Joints(x)) THEN "joints"
  ELSE IF x.k = "outline" /\ AbsB(w.width - (Box(x)[2] - Box(x)[1])) > 8 THEN "width"
  ELSE ""

T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ q = 0 /\ o = IF Traces[tid].k = "hist" THEN Traces[tid].obj ELSE <<>>
HistStep ==
  /\ T.k = "hist" /\ l > 0 /\ l <= Len(T.ops)
  /\ LET op == T.ops[l] o2 == Apply(o, op)
     IN IF q < Len(T.obs) /\ T.obs[q + 1].at = l /\ Bad(o2, T.obs[q + 1]) # ""
        THEN /\ Verdict(tid, FALSE, o2.k \o "-" \o Bad(o2, T.obs[q + 1]),
                        [at |-> l, op |-> op, expected |-> IF Cornered(o2) THEN Points(o2) ELSE <<>>, observed |-> T.obs[q + 1]])
             /\ l' = 0 /\ UNCHANGED <<o, q>>
        ELSE o' = o2 /\ l' = l + 1 /\ q' = IF q < Len(T.obs) /\ T.obs[q + 1].at = l THEN q + 1 ELSE q
HistEnd ==
  /\ T.k = "hist" /\ l = Len(T.ops) + 1
  /\ IF q = Len(T.obs) /\ q > 0 THEN Verdict(tid, TRUE, "", [n |-> q]) ELSE Verdict(tid, FALSE, "missing-query", [n |-> q])
  /\ l' = 0 /\ UNCHANGED <<o, q>>
Pair ==
  /\ T.k = "pair" /\ l = 1
  /\ LET p == T.pair w == T.obs e == Equiv(p.a, p.b, p.v)
         say(c) == Verdict(tid, FALSE, p.a.k \o "-" \o c, [pair |-> p, observed |-> w])
     IN IF w.err # "" THEN say("raised")
        ELSE IF Comparable(p.a) /\ w.eqv # e THEN say(IF e THEN "equivalent" ELSE "not-equivalent")
        ELSE IF w.eq # (p.a = p.b) \/ w.qe # (p.a = p.b) THEN say("equal")
        ELSE Verdict(tid, TRUE, "", [n |-> 1])
  /\ l' = 0 /\ UNCHANGED <<o, q>>
Next == (HistStep \/ HistEnd \/ Pair) /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
