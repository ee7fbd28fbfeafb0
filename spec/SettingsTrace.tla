----------------------------- MODULE SettingsTrace -----------------------------
(* Validation of what the code recognised.  Traces: [m, h, obs].              *)
EXTENDS Settings, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, a, b, hd
vars == <<tid, l, a, b, hd>>
Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))
\* observed object: [notation, units, zero_suppression, zeros, format, angle_units]
Keys == {"notation", "units", "zero_suppression", "zeros", "angle_units", "format"}
Wrong(s, o) == {k \in Keys : o[k] # Look(s, k)}
RECURSIVE Kw(_, _)
Kw(s, kw) == IF kw = <<>> THEN s ELSE Kw(Assign(s, kw[1][1], kw[1][2]), Tail(kw))
ObjStep(s, me, p) == IF p.o # me THEN s ELSE CASE p.op = "set" -> Assign(s, p.k, p.v) [] p.op = "new" -> Kw(Default, p.kw) [] OTHER -> s
ObjCheck(t, p, o, x, y) ==
  IF o.err # "" THEN Verdict(t, FALSE, "assignment-raised", [op |-> p, error |-> o.err])
  ELSE IF (p.op = "bad") # o.rejected THEN Verdict(t, FALSE, "rejection", [op |-> p, rejected |-> o.rejected])
  ELSE IF Wrong(x, o.a) # {} \/ Wrong(y, o.b) # {} \/ Wrong(x, o.ai) # {} \/ Wrong(y, o.bi) # {}
       THEN Verdict(t, FALSE, "settings-object", [op |-> p, expected |-> <<x, y>>, observed |-> o])
  ELSE IF o.eq # (x = y) \/ o.eq2 # (x = y) \/ o.ne # (x # y) THEN Verdict(t, FALSE, "settings-equality", [expected |-> (x = y), a |-> x, b |-> y, observed |-> o])
  ELSE TRUE
\* header verdict: every declared field, through every view
Views == {"file", "settings"}
Declared(k, s) == CASE k = "zs" -> s.zs # "?" [] k = "format" -> s.format # <<>> [] OTHER -> s[k] # "?"
BadView(o, s) == {k \in {"units", "notation", "zs", "format", "angle"} : Declared(k, s) /\
    \E v \in 1..Len(o.views) : LET w == o.views[v] IN
       CASE k = "zs" -> w.zs # s.zs \/ w.zeros # Opp(s.zs) [] OTHER -> k \in DOMAIN w /\ w[k] # s[k]}
HeadVerdict(t, s, o) ==
  LET want == CASE s.type # "?" -> s.type [] Traces[t].m = "param" -> "param" [] OTHER -> "rejected" IN
  IF o.err # "" THEN Verdict(t, FALSE, "raised", [error |-> o.err])
  ELSE IF \E k \in 1..Len(o.type) : o.type[k] # want THEN Verdict(t, FALSE, "file-type", [expected |-> want, observed |-> o.type])
  ELSE IF want = "rejected" THEN Verdict(t, TRUE, "", [n |-> 0])
  ELSE IF BadView(o, s) # {} THEN Verdict(t, FALSE, "declared-" \o (CHOOSE k \in BadView(o, s) : TRUE), [expected |-> s, observed |-> o.views])
  ELSE Verdict(t, TRUE, "", [n |-> Len(Traces[t].h)])
H(t) == Traces[t].h
Init == tid \in 1..Len(Traces) /\ l = 1 /\ a = Default /\ b = Default /\ hd = HInit
Next == \/ /\ l <= Len(H(tid)) /\ l' = l + 1 /\ UNCHANGED tid
           /\ IF Traces[tid].m = "object"
              THEN /\ a' = ObjStep(a, "a", H(tid)[l]) /\ b' = ObjStep(b, "b", H(tid)[l]) /\ UNCHANGED hd
                   /\ ObjCheck(tid, H(tid)[l], Traces[tid].obs.steps[l], a', b')
              ELSE hd' = HStep(hd, H(tid)[l]) /\ UNCHANGED <<a, b>>
        \/ /\ l = Len(H(tid)) + 1 /\ l' = l + 1 /\ UNCHANGED <<tid, a, b, hd>>
           /\ IF Traces[tid].m = "object" THEN Verdict(tid, Traces[tid].obs.err = "", "raised", [n |-> Len(H(tid))]) ELSE HeadVerdict(tid, hd, Traces[tid].obs)
Spec == Init /\ [][Next]_vars
=============================================================================
