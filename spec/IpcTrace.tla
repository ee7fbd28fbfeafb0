------------------------------ MODULE IpcTrace ------------------------------
(* Validation of netlists read by the code.  Trace: [lines, obs]; observed   *)
(* lengths are in millionths of the file's unit.                             *)
EXTENDS Ipc, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, l, s
vars == <<tid, l, s>>
Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))
Sc(u, v) == v * (IF u = "inch" THEN 100 ELSE 1000)
O(u, v) == IF v = <<>> THEN <<>> ELSE <<Sc(u, v[1])>>
P2(u, ps) == [k \in 1..Len(ps) |-> <<Sc(u, ps[k][1]), Sc(u, ps[k][2])>>]
Rot(r) == IF r.rot = <<>> THEN <<>> ELSE <<IF r.ang = "degrees" THEN r.rot[1] * 1000 ELSE (r.rot[1] * 572958) \div 10>>
NearO(a, b) == Len(a) = Len(b) /\ (a = <<>> \/ (a[1] - b[1] <= 1 + a[1] \div 500000 /\ b[1] - a[1] <= 1 + a[1] \div 500000))
Want(r) == CASE r.c = "test" -> [c |-> "test", net |-> r.net, id |-> r.id, pin |-> r.pin, feat |-> r.feat, loc |-> r.loc, dia |-> O(r.u, r.dia),
                                 plated |-> r.plated, acc |-> r.acc, x |-> Sc(r.u, r.x), y |-> Sc(r.u, r.y), w |-> O(r.u, r.w), h |-> O(r.u, r.h), mask |-> r.mask, opt |-> r.opt]
             [] r.c = "out"  -> [c |-> "out", t |-> r.t, pts |-> P2(r.u, r.pts)]
             [] r.c = "cond" -> [c |-> "cond", net |-> r.net, layer |-> r.layer, ap |-> <<O(r.u, r.ap[1]), O(r.u, r.ap[2])>>,
                                 shapes |-> [k \in 1..Len(r.shapes) |-> P2(r.u, r.shapes[k])]]
             [] r.c = "par"  -> [c |-> "par", p |-> r.p, v |-> r.v]
             [] OTHER -> r
\* first difference between expected and observed statement
Fields(e, o) == LET ds == {f \in DOMAIN e : f \notin DOMAIN o \/ e[f] # o[f]} IN IF ds = {} THEN "" ELSE CHOOSE f \in ds : TRUE
StDiff(r, o) == IF r.c # o.c THEN "kind"
                ELSE IF Fields(Want(r), o) # "" THEN Fields(Want(r), o)
                ELSE IF r.c = "test" /\ ~NearO(Rot(r), o.rot) THEN "rotation" ELSE ""
\* the lists must be the statements of their kind
Idx(st, c) == SelectSeq([k \in 1..Len(st) |-> <<k, st[k].c>>], LAMBDA x : x[2] = c)
ListOk(st, c, is) == Len(is) = Len(Idx(st, c)) /\ \A k \in 1..Len(is) : is[k] = Idx(st, c)[k][1]
Judge(t, e, o) ==
  IF o.err # "" THEN Verdict(t, FALSE, "raised", [error |-> o.err])
  ELSE IF Len(o.st) # Len(e.st) THEN Verdict(t, FALSE, "record-count", [expected |-> Len(e.st), observed |-> Len(o.st)])
  ELSE LET ds == {k \in 1..Len(e.st) : StDiff(e.st[k], o.st[k]) # ""}
       IN IF ds # {} THEN LET k == CHOOSE k \in ds : \A n \in ds : k <= n
                          IN Verdict(t, FALSE, e.st[k].c \o "-" \o StDiff(e.st[k], o.st[k]), [at |-> k, expected |-> e.st[k], observed |-> o.st[k]])
  ELSE LET bad == {c \in {"com", "par", "test", "out", "adj"} : ~ListOk(e.st, c, o.lists[c])}
       IN IF bad # {} THEN Verdict(t, FALSE, "list-" \o (CHOOSE c \in bad : TRUE), [lists |-> o.lists])
  ELSE IF o.units # e.u \/ o.angle # e.ang THEN Verdict(t, FALSE, "units", [expected |-> <<e.u, e.ang>>, observed |-> <<o.units, o.angle>>])
  ELSE LET seen == {o.nets[k].name : k \in 1..Len(o.nets)}
           wrong == {k \in 1..Len(o.nets) : RangeOf(o.nets[k].adj) # Adjacent(e, o.nets[k].name)}
       IN IF seen # NetNames(e) \/ Len(o.nets) # Cardinality(seen) THEN Verdict(t, FALSE, "nets", [expected |-> NetNames(e), observed |-> seen])
          ELSE IF wrong # {} THEN LET k == CHOOSE k \in wrong : TRUE
                                  IN Verdict(t, FALSE, "net-adjacency", [net |-> o.nets[k], expected |-> Adjacent(e, o.nets[k].name)])
  ELSE IF RangeOf(o.components) # Components(e) \/ Len(o.components) # Cardinality(Components(e))
       THEN Verdict(t, FALSE, "components", [expected |-> Components(e), observed |-> o.components])
  ELSE IF o.vias # Vias(e) THEN Verdict(t, FALSE, "vias", [expected |-> Vias(e), observed |-> o.vias])
  ELSE LET ts == OfKind(e, "test")
       IN IF Len(o.points) # Len(ts) \/ \E k \in 1..Len(ts) : o.points[k] # <<Sc(ts[k].u, ts[k].x), Sc(ts[k].u, ts[k].y), ts[k].net, ts[k].acc>>
          THEN Verdict(t, FALSE, "test-points", [observed |-> o.points])
  ELSE LET Spot(r) == <<Sc(r.u, r.x), Sc(r.u, r.y), r.net>>
           off == {L \in {"top", "bottom", "both"} : o.shown[L] # [k \in 1..Len(Drawn(e, L)) |-> Spot(Drawn(e, L)[k])]}
       IN IF off # {} THEN Verdict(t, FALSE, "drawn-" \o (CHOOSE L \in off : TRUE), [observed |-> o.shown])
  ELSE Verdict(t, TRUE, "", [n |-> Len(e.st)])
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = IInit
Next == \/ /\ l <= Len(Traces[tid].lines) /\ s' = IStep(s, Traces[tid].lines[l]) /\ l' = l + 1 /\ UNCHANGED tid
        \/ /\ l = Len(Traces[tid].lines) + 1 /\ Judge(tid, Flush(s), Traces[tid].obs) /\ l' = l + 1 /\ UNCHANGED <<tid, s>>
Spec == Init /\ [][Next]_vars
=============================================================================
