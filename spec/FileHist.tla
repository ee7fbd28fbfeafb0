------------------------------- MODULE FileHist -------------------------------
(***************************************************************************)
(* Histories of file objects.  The state is a sequence of files; a file is  *)
(*   [im, st, aps, bb, u, fmt, tp, loose, noctr, ij]                        *)
(* im    graphic objects in physical units (10 nm), see below               *)
(* st    its commands (coordinates, definitions), physical as well          *)
(* aps   its aperture templates                                             *)
(* bb    its bounding box and the extent of its coordinates (<<>>: ignored) *)
(* u     units in force;  fmt  the number format and zero suppression       *)
(* tp    how far points may be off, because the file was written with a     *)
(*       rounded number format (0 for a file that was not re-read)          *)
(* loose TRUE when sizes went through the printed precision                 *)
(* ij    total offset applied to this object (see Deviation)                *)
(* noctr TRUE when arc centres are outside the model (see Deviation)        *)
(*                                                                          *)
(* A graphic object is [k, fl, pol, u, pts, ctr, sz, sub]: kind, flags,     *)
(* polarity, units tag, points, arc centre, sizes, parts.                   *)
(* A command is [k, t, u, x, y, i, j, sz].                                  *)
(*                                                                          *)
(* Actions: convert in place, offset in place, the three copying operations *)
(* of gerber.operations, write-and-read-again, an arbitrary mutation of one *)
(* file (Poke), and queries.                                                *)
(*                                                                          *)
(* Deviation (known finding of C05): the code also offsets I and J of arc   *)
(* commands.  Their deviation is recognised exactly; everything else about  *)
(* those files is still compared.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AbsI(n) == IF n < 0 THEN -n ELSE n
MaxI(a, b) == IF a > b THEN a ELSE b
MapS(f(_), s) == [k \in 1..Len(s) |-> f(s[k])]
Shift(p, v) == <<p[1] + v[1], p[2] + v[2]>>

RECURSIVE Translate(_, _)
Translate(o, v) ==
  [o EXCEPT !.pts = [k \in 1..Len(o.pts) |-> Shift(o.pts[k], v)],
            !.ctr = [k \in 1..Len(o.ctr) |-> Shift(o.ctr[k], v)],
            !.sub = [k \in 1..Len(o.sub) |-> Translate(o.sub[k], v)]]
RECURSIVE Tagged(_, _)
Tagged(o, u) == [o EXCEPT !.u = u, !.sub = [k \in 1..Len(o.sub) |-> Tagged(o.sub[k], u)]]

OptAdd(x, d) == IF x = <<>> THEN x ELSE <<x[1] + d>>
OffsetCmd(c, v) == [c EXCEPT !.x = OptAdd(@, v[1]), !.y = OptAdd(@, v[2])]
CmdUnits(c, u) == IF c.k = "MO" THEN [c EXCEPT !.u = u] ELSE c

\* --- the actions on one file ----------------------------------------------
Convert(fl, u) ==
  IF fl.u = u THEN fl
  ELSE [fl EXCEPT !.u = u, !.im = [k \in 1..Len(fl.im) |-> Tagged(fl.im[k], u)],
                  !.st = [k \in 1..Len(fl.st) |-> CmdUnits(fl.st[k], u)]]
ShiftBB(b, v) == [k \in 1..Len(b) |-> b[k] + v[IF (k - 1) % 4 < 2 THEN 1 ELSE 2]]
Offset(fl, v) ==
  [fl EXCEPT !.im = [k \in 1..Len(fl.im) |-> Translate(fl.im[k], v)],
             !.st = [k \in 1..Len(fl.st) |-> OffsetCmd(fl.st[k], v)],
             !.bb = ShiftBB(@, v), !.ij = Shift(@, v)]
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * (IF n = 1 THEN 1 ELSE IF n = 2 THEN 10 ELSE IF n = 3 THEN 100
            ELSE IF n = 4 THEN 1000 ELSE IF n = 5 THEN 10000 ELSE 100000)
HalfUlp(u, d) == (IF u = "inch" THEN 1270000 ELSE 50000) \div Pow10(d) + 1
HasArc(fl) == \E k \in 1..Len(fl.st) : fl.st[k].i # <<>> \/ fl.st[k].j # <<>>
Reread(fl, fmt) ==
  [fl EXCEPT !.fmt = fmt, !.tp = @ + HalfUlp(fl.u, fmt.d), !.loose = TRUE, !.bb = <<>>,
             !.noctr = @ \/ (HasArc(fl) /\ fl.ij # <<0, 0>>), !.ij = <<0, 0>>]

\* --- the actions on the whole state ----------------------------------------
\* obs: what the implementation shows for the target, used by Poke only
StepF(fs, op, obs) ==
  LET f == fs[op.f] IN
  CASE op.o = "inch"    -> [fs EXCEPT ![op.f] = Convert(f, "inch")]
    [] op.o = "metric"  -> [fs EXCEPT ![op.f] = Convert(f, "metric")]
    [] op.o = "off"     -> [fs EXCEPT ![op.f] = Offset(f, op.v)]
    [] op.o = "cinch"   -> Append(fs, Convert(f, "inch"))
    [] op.o = "cmetric" -> Append(fs, Convert(f, "metric"))
    [] op.o = "coff"    -> Append(fs, Offset(f, op.v))
    [] op.o = "rw"      -> Append(fs, Reread(f, IF op.fmt = <<>> THEN f.fmt ELSE op.fmt[1]))
    [] op.o = "poke"    -> [fs EXCEPT ![op.f] = obs]
    [] OTHER            -> fs
=============================================================================
