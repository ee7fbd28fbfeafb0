------------------------------ MODULE SettingsMC ------------------------------
(* Design check.  Mode "object": histories of assignments to two settings    *)
(* objects.  Otherwise headers of the given kind ("none": no known format).  *)
EXTENDS Settings, TLC, Json
CONSTANTS Modes, Depth, HDepth, Emit, Thin
VARIABLES mode, a, b, h, hist
vars == <<mode, a, b, h, hist>>
Keys == {"notation", "units", "zero_suppression", "zeros", "angle_units", "format"}
W(k, t, after) == [c |-> "words", k |-> k, t |-> t, after |-> after]
Words == { W("rs274x", "G04 M48 is a part*", FALSE), W("rs274x", "G04 plain comment*", FALSE), W("rs274x", "%TF.FileFunction,Copper,L1,Top*%", FALSE), W("rs274x", "%ADD10C,0.1*%", TRUE),
           W("rs274x", "G04 P  JOB*", FALSE), W("rs274x", "%INM48*%", TRUE), W("rs274x", "G75*", TRUE), W("any", "", FALSE),
           W("excellon", ";plain comment", FALSE), W("excellon", ";made from %FSLAX24Y24*%", FALSE), W("excellon", "FMAT", TRUE), W("excellon", ";M48", FALSE), W("excellon", "T01C0.02", TRUE),
           W("ipc_d_356", "C  comment", FALSE), W("ipc_d_356", "C  M48 is a part", FALSE), W("ipc_d_356", "C  %FSLAX24Y24*%", FALSE), W("ipc_d_356", "P  VER IPC-D-356A", FALSE), W("ipc_d_356", "P  TITLE M48", FALSE),
           W("param", "LEADING-ZEROES NO", FALSE), W("param", "FEEDRATE 1", FALSE),
           W("none", "PART M48 REV 2", FALSE), W("none", "P  JOBS", FALSE), W("none", "JOB P", FALSE), W("none", "G04 comment*", FALSE), W("none", "100%", FALSE), W("none", "T1C0.02", FALSE), W("none", "M4 8", FALSE) }
Fmts == {<<2, 4>>, <<3, 3>>, <<2, 6>>, <<4, 5>>}
Lines(k) == {w \in Words : w.k \in {k, "any"} /\ w.t # "FMAT"} \cup
  CASE k = "rs274x" -> {[c |-> "fs", z |-> z, n |-> n, f |-> f] : z \in {"leading", "trailing"}, n \in {"absolute", "incremental"}, f \in Fmts}
                       \cup {[c |-> "mo", u |-> u, old |-> o] : u \in {"inch", "metric"}, o \in BOOLEAN}
    [] k = "excellon" -> {[c |-> "m48"], [c |-> "xabs"]} \cup {[c |-> "unit", u |-> u, z |-> z, f |-> f] : u \in {"inch", "metric"}, z \in {"leading", "trailing", ""}, f \in {<<>>, <<2, 4>>, <<3, 3>>, <<4, 2>>}}
                       \cup {[c |-> "meas", u |-> u] : u \in {"inch", "metric"}} \cup {[c |-> "ici", n |-> n] : n \in {"absolute", "incremental"}}
                       \cup {[c |-> "ff", f |-> f] : f \in {<<2, 4>>, <<3, 5>>, <<4, 4>>}}
    [] k = "ipc_d_356" -> {[c |-> "job"]} \cup {[c |-> "cust", v |-> v] : v \in {"CUST", "CUST 0", "CUST 1", "CUST 2"}}
    [] k = "param" -> {[c |-> "coords", n |-> n] : n \in {"absolute", "incremental"}} \cup {[c |-> "outu", u |-> u] : u \in {"inch", "metric"}}
                      \cup {[c |-> "int", v |-> v] : v \in {2, 3}} \cup {[c |-> "dec", v |-> v] : v \in {4, 6}}
    [] OTHER -> {}
GoodOps == [op : {"set"}, o : {"a", "b"}, how : {"attr", "item"}, k : Keys]
Init == mode \in Modes /\ a = Default /\ b = Default /\ h = HInit /\ hist = <<>>
Set(p, v) == /\ a' = IF p.o = "a" THEN Assign(a, p.k, v) ELSE a
             /\ b' = IF p.o = "b" THEN Assign(b, p.k, v) ELSE b
             /\ hist' = Append(hist, [op |-> "set", o |-> p.o, how |-> p.how, k |-> p.k, v |-> v])
\* a rejected assignment changes nothing
Bad(p) == p.how = "item" /\ UNCHANGED <<a, b>> /\ hist' = Append(hist, [op |-> "bad", o |-> p.o, how |-> "item", k |-> p.k])
New(o, kw) == /\ a' = IF o = "a" THEN kw.s ELSE a
              /\ b' = IF o = "b" THEN kw.s ELSE b
              /\ hist' = Append(hist, [op |-> "new", o |-> o, kw |-> kw.kw])
Kws == {[kw |-> <<>>, s |-> Default]} \cup UNION {{[kw |-> << <<k, v>> >>, s |-> Assign(Default, k, v)] : v \in Domain[k]} : k \in Keys}
       \cup UNION {{[kw |-> << <<k, v>>, <<"units", "metric">> >>, s |-> Assign(Assign(Default, k, v), "units", "metric")] : v \in Domain[k]} : k \in {"zeros", "zero_suppression", "format"}}
       \cup {[kw |-> << <<"zeros", z>>, <<"zero_suppression", Opp(z)>> >>, s |-> Assign(Default, "zeros", z)] : z \in {"leading", "trailing"}}
Next == \/ /\ mode = "object" /\ Len(hist) < Depth /\ UNCHANGED <<mode, h>>
           /\ \/ \E p \in GoodOps : \E v \in Domain[p.k] : Set(p, v)
              \/ \E p \in GoodOps : Bad(p)
              \/ \E o \in {"a", "b"} : \E kw \in Kws : New(o, kw)
        \/ /\ mode # "object" /\ Len(hist) < HDepth + (IF mode = "param" THEN 2 ELSE 0) /\ UNCHANGED <<mode, a, b>>
           /\ \E l \in Lines(mode) : HOk(mode, h, l) /\ h' = HStep(h, l) /\ hist' = Append(hist, l)
Spec == Init /\ [][Next]_vars
OneZeroSetting == \A s \in {a, b} : Look(s, "zeros") = Opp(Look(s, "zero_suppression"))
TypeIsKind == h.type \in {"?", mode}
\* equal objects look equal through every key, different ones differ through some
Extensional == (a = b) <=> \A k \in Keys : Look(a, k) = Look(b, k)
\* the last declaration counts, and nothing else does
LastCounts == mode = "excellon" /\ h.units # "?" =>
   LET us == {k \in 1..Len(hist) : hist[k].c \in {"unit", "meas"}} IN h.units = hist[CHOOSE k \in us : \A m \in us : m <= k].u
Settled == CASE mode \in {"object", "none"} -> TRUE [] mode = "param" -> h.units # "?" /\ h.notation # "?" /\ h.format # <<>> [] OTHER -> h.type # "?"
EmitIt == (Emit /\ Len(hist) > 0 /\ Settled /\ (Len(hist) <= 1 \/ Thin = 1 \/ RandomElement(IF Len(hist) > 1000 THEN {} ELSE 1..Thin) = 1)) => PrintT("P " \o ToJson([m |-> mode, h |-> hist]))
=============================================================================
