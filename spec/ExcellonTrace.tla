---------------------------- MODULE ExcellonTrace ----------------------------
(* Validation of recorded drill file histories.  A trace is                  *)
(*   [cmds, ext, g, tol, ops, obs]   g: nanometres per grid unit, tol: how    *)
(* far a written diameter may be off (nm); obs[1] is what the reader made of  *)
(* the file, obs[k+1] what was seen after ops[k]:                             *)
(*   [err, file, src]: the resulting file and, for operations that make a new *)
(*   file, the one it was made from; for "rep" the rows of the report.        *)
EXTENDS Excellon, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, s, td
vars == <<tid, l, s, td>>
Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))
Near(a, b, t) == a - b <= t /\ b - a <= t

ToolDiff(f, o, tol, pl) ==
  IF Len(o.tools) # Len(f.tools) THEN "tool-count"
  ELSE LET D(k) == LET a == f.tools[k] IN
             IF ~Has(o.tools, a.n) THEN "tool-missing"
             ELSE LET b == Get(o.tools, a.n) IN
                  IF ~Near(a.d, b.d, tol) THEN "tool-diameter"
                  ELSE IF a.h # b.h THEN "tool-hit-count"
                  ELSE IF pl /\ a.p # b.p THEN "tool-plating" ELSE ""
           ds == {k \in 1..Len(f.tools) : D(k) # ""}
       IN IF ds = {} THEN "" ELSE D(CHOOSE k \in ds : \A m \in ds : k <= m)
HitsDiff(f, e, o, tol) ==
  LET n == IF Len(e) < Len(o) THEN Len(e) ELSE Len(o)
      D(k) == IF e[k].k # o[k].k THEN "hit-kind"
              ELSE IF e[k].t # o[k].t THEN "hit-tool"
              ELSE IF e[k].pts # o[k].pts THEN "hit-position"
              ELSE IF ~Near(Get(f.tools, e[k].t).d, o[k].d, tol) THEN "hit-diameter" ELSE ""
      ds == {k \in 1..n : D(k) # ""}
  IN IF ds # {} THEN D(CHOOSE k \in ds : \A m \in ds : k <= m)
     ELSE IF Len(e) > n THEN "hit-missing" ELSE IF Len(o) > n THEN "hit-extra" ELSE ""
GroupedDiff(f, o, tol) ==
  IF Len(f.hits) # Len(o.hits) THEN "hit-count"
  ELSE LET ds == {k \in 1..Len(f.tools) : HitsDiff(f, OfTool(f.hits, f.tools[k].n), OfTool(o.hits, f.tools[k].n), tol) # ""}
       IN IF ds = {} THEN "" ELSE LET k == CHOOSE k \in ds : TRUE
                                  IN HitsDiff(f, OfTool(f.hits, f.tools[k].n), OfTool(o.hits, f.tools[k].n), tol)
BoundsDiff(f, o, g, tol) ==
  LET b == Bounds(f, g) IN
  IF b = <<>> THEN "" ELSE IF \A k \in 1..4 : Near(b[k], o.bb[k], tol + 3) THEN "" ELSE "bounds"
XDiff(f, o, g, tol, grouped) ==
  IF o.u # f.u THEN "units"
  ELSE LET h == IF grouped THEN GroupedDiff(f, o, tol) ELSE HitsDiff(f, f.hits, o.hits, tol) IN IF h # "" THEN h
  ELSE LET d == ToolDiff(f, o, tol, ~grouped \/ f.plated = "") IN IF d # "" THEN d
  ELSE IF ~o.prims THEN "primitives" ELSE BoundsDiff(f, o, g, tol)
\* the report: one row [n, d, h, len] per tool (len in hundredths of a grid unit)
RepDiff(f, o, tol, rt) ==
  IF ~o.head \/ o.inc # f.inc THEN "report-head"
  ELSE IF Len(o.rows) # Len(f.tools) THEN "report-rows"
  ELSE LET D(k) == LET a == f.tools[k] p == PathOf(f, a.n) IN
             IF ~Has(o.rows, a.n) THEN "report-tool-missing"
             ELSE LET b == Get(o.rows, a.n) IN
                  IF ~Near(a.d, b.d, tol) THEN "report-size"
                  ELSE IF a.h # b.h THEN "report-hits"
                  ELSE IF b.len < p[1] - 1 - rt \/ b.len > p[1] + p[2] + 1 + rt THEN "report-path-length"
                  ELSE IF b.plen < p[1] - 1 \/ b.plen > p[1] + p[2] + 1 THEN "path-length"
                  ELSE IF b.hc # a.h THEN "hit-count" ELSE ""
           ds == {k \in 1..Len(f.tools) : D(k) # ""}
       IN IF ds = {} THEN "" ELSE D(CHOOSE k \in ds : \A m \in ds : k <= m)

Adopt(f, o) == [f EXCEPT !.hits = [k \in 1..Len(o.hits) |-> [k |-> o.hits[k].k, t |-> o.hits[k].t, pts |-> o.hits[k].pts]]]
Fail(clause, d) == Verdict(tid, FALSE, clause, d) /\ l' = 0 /\ UNCHANGED <<tid, s, td>>
T == Traces[tid]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = XInit(Traces[tid].ext) /\ td = 2
Read ==
  /\ l = 1
  /\ LET f == XRun(s, T.cmds) o == T.obs[1] IN
     IF o.err # "" THEN Fail("read-raised", [error |-> o.err])
     ELSE LET d == XDiff(f, o.file, T.g, td, FALSE)
          IN IF d # "" THEN Fail("read-" \o d, [expected |-> f.hits, tools |-> f.tools, observed |-> o.file])
             ELSE s' = f /\ l' = 2 /\ UNCHANGED <<tid, td>>
Step ==
  /\ l > 1 /\ l <= Len(T.ops) + 1
  /\ LET op == T.ops[l - 1]
         o == T.obs[l]
     IN IF o.err # "" THEN Fail(op.o \o "-raised", [at |-> l - 1, error |-> o.err])
        ELSE CASE op.o = "off" ->
                    LET f == XShift(s, op.v) d == XDiff(f, o.file, T.g, td, FALSE)
                    IN IF d # "" THEN Fail("off-" \o d, [at |-> l - 1, observed |-> o.file])
                       ELSE s' = f /\ l' = l + 1 /\ UNCHANGED <<tid, td>>
               [] op.o = "conv" ->
                    LET f == XConvert(s, op.u) d == XDiff(f, o.file, T.g, td, FALSE)
                    IN IF d # "" THEN Fail("conv-" \o d, [at |-> l - 1, observed |-> o.file])
                       ELSE s' = f /\ l' = l + 1 /\ UNCHANGED <<tid, td>>
               [] op.o = "perm" ->
                    LET f == XArranged(s, op.how) d == XDiff(f, o.file, T.g, td, FALSE)
                    IN IF d # "" THEN Fail("perm-" \o d, [at |-> l - 1, op |-> op, observed |-> o.file])
                       ELSE s' = f /\ l' = l + 1 /\ UNCHANGED <<tid, td>>
               [] op.o = "upd" ->
                    LET f == XUpdate(s, op.n, op.d) d == XDiff(f, o.file, T.g, td, FALSE)
                    IN IF d # "" THEN Fail("upd-" \o d, [at |-> l - 1, op |-> op, observed |-> o.file])
                       ELSE IF ~o.others THEN Fail("upd-other-parameters", [at |-> l - 1, op |-> op])
                       ELSE s' = f /\ l' = l + 1 /\ UNCHANGED <<tid, td>>
               [] op.o = "rw" ->
                    LET f == XWritten(s) d == XDiff(f, o.file, T.g, td + T.tol, TRUE) c == XDiff(s, o.src, T.g, td, FALSE)
                    IN IF d # "" THEN Fail("rw-" \o d, [at |-> l - 1, expected |-> f, observed |-> o.file, text |-> o.text])
                       ELSE IF c # "" THEN Fail("rw-changed-source-" \o c, [at |-> l - 1, observed |-> o.src])
                       ELSE IF ~o.same THEN Fail("rw-text-differs", [at |-> l - 1])
                       ELSE IF ~o.params THEN Fail("rw-tool-parameters", [at |-> l - 1, text |-> o.text])
                       ELSE s' = Adopt(f, o.file) /\ td' = td + T.tol /\ l' = l + 1 /\ UNCHANGED <<tid>>
               [] op.o = "ctx" ->
                    LET f == XGenerated(s) d == XDiff(f, o.file, T.g, td + T.tol, TRUE) c == XDiff(s, o.src, T.g, td, FALSE)
                    IN IF d # "" THEN Fail("ctx-" \o d, [at |-> l - 1, expected |-> f, observed |-> o.file, text |-> o.text])
                       ELSE IF c # "" THEN Fail("ctx-changed-source-" \o c, [at |-> l - 1, observed |-> o.src])
                       ELSE s' = Adopt(f, o.file) /\ td' = td + T.tol /\ l' = l + 1 /\ UNCHANGED <<tid>>
               [] OTHER ->
                    LET d == RepDiff(s, o, td + T.rtol[s.u], T.rt)
                    IN IF d # "" THEN Fail(d, [at |-> l - 1, hits |-> s.hits, tools |-> s.tools, observed |-> o])
                       ELSE l' = l + 1 /\ UNCHANGED <<tid, s, td>>
End == /\ l = Len(T.ops) + 2 /\ Verdict(tid, TRUE, "", [n |-> Len(s.hits)]) /\ l' = 0 /\ UNCHANGED <<tid, s, td>>
Next == Read \/ Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
