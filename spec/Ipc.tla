--------------------------------- MODULE Ipc ---------------------------------
(* IPC-D-356 netlist files: a sequence of lines, read one by one.  A line    *)
(* that starts with 0 extends the line before it.  Lengths are raw integers  *)
(* of the file; a record keeps the unit in force when it was read.           *)
EXTENDS Integers, Sequences, FiniteSets

\* --- abstract lines ----------------------------------------------------------
\* [c |-> "com", t]                        comment
\* [c |-> "par", p, v]                     job parameter; UNITS and NNAMEn have an effect
\* [c |-> "test", ...]                     317 / 327 / 367 record, see Rec
\* [c |-> "out", t, pts]                   board outline; pts: <<x or none, y or none>>
\* [c |-> "cond", net, layer, ap, pts]     conductor: sequence of shapes
\* [c |-> "adj", net, nets]                adjacency
\* [c |-> "cont", nets, pts]               continuation of the line before
\* [c |-> "eof"]  [c |-> "blank"]

IInit == [u |-> "inch", ang |-> "degrees", names |-> <<>>, pend |-> <<>>, st |-> <<>>]

Alias(s, n) == LET ks == {k \in 1..Len(s.names) : s.names[k][1] = n}
               IN IF ks = {} THEN n ELSE s.names[CHOOSE k \in ks : \A m \in ks : m <= k][2]

\* modal coordinates: an omitted one repeats
RECURSIVE Modal(_, _, _)
Modal(ps, x, y) == IF ps = <<>> THEN <<>>
                   ELSE LET p == Head(ps)
                            nx == IF p[1] = <<>> THEN x ELSE p[1][1]
                            ny == IF p[2] = <<>> THEN y ELSE p[2][1]
                        IN << <<nx, ny>> >> \o Modal(Tail(ps), nx, ny)

Feature == [s \in {"317", "327", "367"} |-> IF s = "317" THEN "through-hole" ELSE IF s = "327" THEN "smt" ELSE "non-plated-tooling-hole"]
Access == <<"both", "top", "layer2", "layer3", "layer4", "layer5", "layer6", "layer7", "bottom">>
Masks == [m \in {"", "0", "1", "2", "3"} |-> CASE m = "0" -> "none" [] m = "1" -> "primary side" [] m = "2" -> "secondary side"
                                                [] m = "3" -> "both" [] OTHER -> ""]
Done(s, l) ==
  CASE l.c = "com" -> [s EXCEPT !.st = Append(@, l)]
    [] l.c = "par" ->
         LET s1 == IF l.p # "UNITS" THEN s
                   ELSE CASE l.v \in {"CUST", "CUST 0"} -> [s EXCEPT !.u = "inch", !.ang = "degrees"]
                          [] l.v = "CUST 1" -> [s EXCEPT !.u = "metric", !.ang = "degrees"]
                          [] l.v = "CUST 2" -> [s EXCEPT !.u = "inch", !.ang = "radians"]
                          [] OTHER -> s
             s2 == IF l.alias THEN [s1 EXCEPT !.names = Append(@, <<l.p, l.v>>)] ELSE s1
         IN [s2 EXCEPT !.st = Append(@, l)]
    [] l.c = "test" ->
         [s EXCEPT !.st = Append(@, [c |-> "test", u |-> s.u, net |-> Alias(s, l.net), id |-> l.id, pin |-> l.pin, feat |-> Feature[l.code],
                                     loc |-> IF l.mid THEN "middle" ELSE "end", dia |-> l.dia, plated |-> l.pl = "P",
                                     acc |-> Access[l.acc + 1], x |-> l.x, y |-> l.y, w |-> l.w, h |-> l.h,
                                     rot |-> l.rot, ang |-> s.ang, mask |-> Masks[l.sm], opt |-> l.opt])]
    [] l.c = "out"  -> [s EXCEPT !.st = Append(@, [c |-> "out", u |-> s.u, t |-> l.t, pts |-> Modal(l.pts, 0, 0)])]
    [] l.c = "cond" -> [s EXCEPT !.st = Append(@, [c |-> "cond", u |-> s.u, net |-> Alias(s, l.net), layer |-> l.layer, ap |-> l.ap,
                                                   shapes |-> [k \in 1..Len(l.pts) |-> Modal(l.pts[k], 0, 0)]])]
    [] l.c = "adj"  -> [s EXCEPT !.st = Append(@, [c |-> "adj", net |-> Alias(s, l.net), nets |-> [k \in 1..Len(l.nets) |-> Alias(s, l.nets[k])]])]
    [] l.c = "eof"  -> [s EXCEPT !.st = Append(@, [c |-> "eof"])]
    [] OTHER -> s
Extend(l, m) == CASE l.c = "out"  -> [l EXCEPT !.pts = @ \o m.pts]
                  [] l.c = "cond" -> [l EXCEPT !.pts[Len(l.pts)] = @ \o m.pts]
                  [] l.c = "adj"  -> [l EXCEPT !.nets = @ \o m.nets]
                  [] OTHER -> l
Flush(s) == IF s.pend = <<>> THEN s ELSE [Done(s, s.pend[1]) EXCEPT !.pend = <<>>]
IStep(s, l) == IF l.c = "cont" THEN [s EXCEPT !.pend = <<Extend(s.pend[1], l)>>]
               ELSE [Flush(s) EXCEPT !.pend = IF l.c = "blank" THEN <<>> ELSE <<l>>]
IOk(s, l) == CASE l.c = "cont" -> s.pend # <<>> /\ ((s.pend[1].c \in {"out", "cond"} /\ l.pts # <<>>) \/ (s.pend[1].c = "adj" /\ l.nets # <<>>))
               [] OTHER -> TRUE
RECURSIVE IRun(_, _)
IRun(s, ls) == IF ls = <<>> THEN s ELSE IRun(IStep(s, Head(ls)), Tail(ls))

\* --- what the netlist shows ----------------------------------------------------
OfKind(s, c) == SelectSeq(s.st, LAMBDA r : r.c = c)
NetNames(s) == {OfKind(s, "test")[k].net : k \in 1..Len(OfKind(s, "test"))}
RangeOf(q) == {q[k] : k \in 1..Len(q)}
Adjacent(s, n) == LET as == OfKind(s, "adj")
                  IN UNION {IF as[k].net = n THEN RangeOf(as[k].nets) ELSE IF n \in RangeOf(as[k].nets) THEN {as[k].net} ELSE {} : k \in 1..Len(as)}
Components(s) == {OfKind(s, "test")[k].id : k \in 1..Len(OfKind(s, "test"))} \ {"VIA"}
\* what is drawn of one side: the records that can be reached from it
Side(L) == IF L = "both" THEN {"top", "bottom", "both"} ELSE {L, "both"}
Drawn(s, L) == SelectSeq(OfKind(s, "test"), LAMBDA r : r.acc \in Side(L))
Vias(s) == Len(SelectSeq(OfKind(s, "test"), LAMBDA r : r.id = "VIA"))
=============================================================================
