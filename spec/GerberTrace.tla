----------------------------- MODULE GerberTrace -----------------------------
(* Trace validation for the reader: each trace is [cmds, obs] where obs is  *)
(* what the implementation read from the concrete text of cmds.  The spec's *)
(* own actions are replayed, one per command; the verdict is total.         *)
EXTENDS Gerber, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, g
vars == <<tid, l, g>>

Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))

FirstDiff(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      ds == {k \in 1..n : a[k] # b[k]}
  IN IF ds = {} THEN n + 1 ELSE CHOOSE k \in ds : \A m \in ds : k <= m
FieldDiff(a, b) ==
  IF a.k # b.k THEN "kind"
  ELSE IF DOMAIN a # DOMAIN b THEN "fields"
  ELSE LET ds == {f \in DOMAIN a : a[f] # b[f]}
       IN IF ds = {} THEN "none" ELSE CHOOSE f \in ds : TRUE

\* the extent of a file is that of the coordinates it names
Named(cs, ax) == {cs[k][ax][1] : k \in {k \in 1..Len(cs) : cs[k].c = "CO" /\ cs[k][ax] # <<>>}}
Least(S) == CHOOSE v \in S : \A w \in S : v <= w
Most(S) == CHOOSE v \in S : \A w \in S : v >= w
Range2(S) == IF S = {} THEN <<>> ELSE <<Least(S), Most(S)>>
Extent(cs) == <<Range2(Named(cs, "x")), Range2(Named(cs, "y"))>>
Size(cs) == LET e == Extent(cs) IN IF e[1] = <<>> \/ e[2] = <<>> THEN <<>> ELSE <<e[1][2] - e[1][1], e[2][2] - e[2][1]>>
Judge(t, e, o) ==
  IF o.err # "" THEN Verdict(t, FALSE, "reader-raised", [error |-> o.err])
  ELSE IF o.units # e.units THEN Verdict(t, FALSE, "file-units", [expected |-> e.units, observed |-> o.units])
  ELSE IF "extent" \in DOMAIN o /\ o.extent # Extent(Traces[t].cmds)
       THEN Verdict(t, FALSE, "file-extent", [expected |-> Extent(Traces[t].cmds), observed |-> o.extent])
  ELSE IF "size" \in DOMAIN o /\ o.size # Size(Traces[t].cmds)
       THEN Verdict(t, FALSE, "file-size", [expected |-> Size(Traces[t].cmds), observed |-> o.size])
  ELSE IF o.img = e.img THEN Verdict(t, TRUE, "", [n |-> Len(e.img)])
  ELSE LET k == FirstDiff(e.img, o.img)
       IN IF k > Len(e.img) THEN Verdict(t, FALSE, "extra-object", [at |-> k, observed |-> o.img[k]])
          ELSE IF k > Len(o.img) THEN Verdict(t, FALSE, "missing-object", [at |-> k, expected |-> e.img[k]])
          ELSE Verdict(t, FALSE, "object-" \o e.img[k].k \o "-" \o FieldDiff(e.img[k], o.img[k]),
                       [at |-> k, expected |-> e.img[k], observed |-> o.img[k]])

Init == tid \in 1..Len(Traces) /\ l = 1 /\ g = GInit
Next == \/ /\ l <= Len(Traces[tid].cmds)
           /\ g' = Step(g, Traces[tid].cmds[l])
           /\ l' = l + 1 /\ UNCHANGED tid
        \/ /\ l = Len(Traces[tid].cmds) + 1
           /\ Judge(tid, g, Traces[tid].obs)
           /\ l' = l + 1 /\ UNCHANGED <<tid, g>>
Spec == Init /\ [][Next]_vars
=============================================================================
