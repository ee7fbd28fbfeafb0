------------------------------- MODULE Settings -------------------------------
(* What a file declares about itself: its type, units, notation, zero        *)
(* handling and number format; and settings objects as records of the same.  *)
(* "?" (or <<>> for a format) stands for "not declared".                     *)
EXTENDS Integers, Sequences, FiniteSets

\* --- settings objects --------------------------------------------------------
Opp(z) == IF z = "leading" THEN "trailing" ELSE "leading"
Default == [notation |-> "absolute", units |-> "inch", zs |-> "trailing", format |-> <<2, 5>>, angle |-> "degrees"]
Domain == [notation |-> {"absolute", "incremental"}, units |-> {"inch", "metric"}, zero_suppression |-> {"leading", "trailing"},
           zeros |-> {"leading", "trailing"}, angle_units |-> {"degrees", "radians"}, format |-> {<<2, 4>>, <<2, 5>>, <<3, 3>>, <<4, 2>>}]
Field(k) == CASE k = "zero_suppression" -> "zs" [] k = "zeros" -> "zs" [] k = "angle_units" -> "angle" [] OTHER -> k
\* assigning a declared value: the two ways of stating zero handling are one setting
Assign(s, k, v) == [s EXCEPT ![Field(k)] = IF k = "zeros" THEN Opp(v) ELSE v]
Look(s, k) == IF k = "zeros" THEN Opp(s.zs) ELSE s[Field(k)]

\* --- headers -----------------------------------------------------------------
\* type: "?" until the first line that marks it
HInit == [type |-> "?", units |-> "?", notation |-> "?", zs |-> "?", format |-> <<>>, angle |-> "?", int |-> 0, dec |-> 0]
\* lines, by format:
\*   Gerber    fs (zero handling, notation, format)  mo (units)  g70 g71  g90
\*   Excellon  m48  unit (units, zeros or "", format or <<>>)  m71 m72  ici (on/off)  xg90  ff (format)
\*   IPC       job  cust (value)
\*   a drill parameter file (separate from the drill file): coords, outu, int, dec
\*   any       words: text without a meaning here (comments, other commands)
Marks(l) == CASE l.c = "fs" -> "rs274x" [] l.c = "m48" -> "excellon" [] l.c = "job" -> "ipc_d_356" [] OTHER -> "?"
HStep(s0, l) ==
  LET s == IF s0.type = "?" THEN [s0 EXCEPT !.type = Marks(l)] ELSE s0
  IN CASE l.c = "fs"   -> [s EXCEPT !.zs = l.z, !.notation = l.n, !.format = l.f]
       [] l.c = "mo"   -> [s EXCEPT !.units = l.u]
       [] l.c = "unit" -> [s EXCEPT !.units = l.u, !.zs = IF l.z = "" THEN "?" ELSE Opp(l.z), !.format = IF l.f = <<>> THEN @ ELSE l.f]
       [] l.c = "meas" -> [s EXCEPT !.units = l.u]
       [] l.c = "ici"  -> [s EXCEPT !.notation = l.n]
       [] l.c = "xabs" -> [s EXCEPT !.notation = "absolute"]
       [] l.c = "ff"   -> [s EXCEPT !.format = l.f]
       [] l.c = "cust" -> [s EXCEPT !.units = IF l.v = "CUST 1" THEN "metric" ELSE "inch", !.angle = IF l.v = "CUST 2" THEN "radians" ELSE "degrees"]
       [] l.c = "coords" -> [s EXCEPT !.notation = l.n]
       [] l.c = "outu" -> [s EXCEPT !.units = l.u]
       [] l.c = "int"  -> [s EXCEPT !.int = l.v, !.format = IF s.dec = 0 THEN <<>> ELSE <<l.v, s.dec>>]
       [] l.c = "dec"  -> [s EXCEPT !.dec = l.v, !.format = IF s.int = 0 THEN <<>> ELSE <<s.int, l.v>>]
       [] OTHER -> s
RECURSIVE HRun(_, _)
HRun(s, ls) == IF ls = <<>> THEN s ELSE HRun(HStep(s, Head(ls)), Tail(ls))
\* where each line may stand
HOk(kind, s, l) ==
  CASE l.c = "fs"   -> kind = "rs274x" /\ s.format = <<>>
    [] l.c = "mo"   -> kind = "rs274x"
    [] l.c \in {"unit", "meas", "ici", "xabs", "ff"} -> kind = "excellon" /\ s.type = "excellon"
    [] l.c = "m48"  -> kind = "excellon" /\ s.type = "?"
    [] l.c = "job"  -> kind = "ipc_d_356" /\ s.type = "?"
    [] l.c = "cust" -> kind = "ipc_d_356"
    [] l.c = "coords" -> kind = "param" /\ s.notation = "?"
    [] l.c = "outu" -> kind = "param" /\ s.units = "?"
    [] l.c = "int"  -> kind = "param" /\ s.int = 0
    [] l.c = "dec"  -> kind = "param" /\ s.dec = 0
    [] l.c = "words" -> (l.k = "any" \/ l.k = kind) /\ (l.after => s.type # "?")
    [] OTHER -> FALSE
=============================================================================
