----------------------------- MODULE LayoutTrace -----------------------------
(* Validation of laid out files.  A trace is [files, cmds, set, obs]: files    *)
(* are symbol streams (file 1 is read), cmds the commands they stand for, set  *)
(* the settings the commands declare.  The layout reader of Layout.tla takes   *)
(* the files apart and every command it finds is a step of the plotter of      *)
(* Gerber.tla; the implementation's objects and settings must be the same.     *)
EXTENDS Gerber, Layout, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, s, g, l
vars == <<tid, s, g, l>>
Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))
FirstDiff(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      ds == {k \in 1..n : a[k] # b[k]}
  IN IF ds = {} THEN n + 1 ELSE CHOOSE k \in ds : \A m \in ds : k <= m
\* settings in force: the last declaration of each
SetStep(x, c) == CASE c.c = "FS" -> [x EXCEPT !.zs = c.z, !.format = c.f, !.notation = "absolute"]
                   [] c.c = "MO" -> [x EXCEPT !.units = c.u]
                   [] OTHER -> x
RECURSIVE SetRun(_, _)
SetRun(x, cs) == IF cs = <<>> THEN x ELSE SetRun(SetStep(x, Head(cs)), Tail(cs))
T == Traces[tid]
Judge(o) ==
  IF s.err = "nesting"
  THEN (IF o.err = "" THEN Verdict(tid, FALSE, "nesting-not-refused", [n |-> Len(s.out)]) ELSE Verdict(tid, TRUE, "", [n |-> 0]))
  ELSE IF s.err # "" THEN Verdict(tid, FALSE, "machinery-layout", [error |-> s.err])
  ELSE IF o.err # "" THEN Verdict(tid, FALSE, "reader-raised", [error |-> o.err])
  ELSE LET e == SetRun([units |-> "?", zs |-> "?", format |-> <<>>, notation |-> "?"], [k \in 1..Len(s.out) |-> T.cmds[s.out[k]]])
           b == {f \in DOMAIN e : e[f] # o.set[f]}
       IN IF b # {} THEN Verdict(tid, FALSE, "settings-" \o (CHOOSE f \in b : TRUE), [expected |-> e, observed |-> o.set])
          ELSE IF o.img = g.img THEN Verdict(tid, TRUE, "", [n |-> Len(g.img)])
          ELSE LET k == FirstDiff(g.img, o.img)
               IN IF k > Len(g.img) THEN Verdict(tid, FALSE, "extra-object", [at |-> k, observed |-> o.img[k]])
                  ELSE IF k > Len(o.img) THEN Verdict(tid, FALSE, "missing-object", [at |-> k, expected |-> g.img[k]])
                  ELSE Verdict(tid, FALSE, "object-" \o g.img[k].k, [at |-> k, expected |-> g.img[k], observed |-> o.img[k]])
Init == tid \in 1..Len(Traces) /\ s = LInit(1) /\ g = GInit /\ l = 0
Next == \/ /\ ~Done(s)
           /\ LET z == LNext(T.files, s, Limit)
              IN /\ s' = z
                 /\ g' = IF Len(z.out) > Len(s.out) THEN Step(g, T.cmds[z.out[Len(z.out)]]) ELSE g
           /\ UNCHANGED <<tid, l>>
        \/ /\ Done(s) /\ l = 0
           /\ Judge(T.obs)
           /\ l' = 1 /\ UNCHANGED <<tid, s, g>>
Spec == Init /\ [][Next]_vars
=============================================================================
