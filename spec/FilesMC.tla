------------------------------- MODULE FilesMC -------------------------------
(* Design check of the conversion / copy protocol at the level of the object *)
(* graph, and enumeration of all operation histories.                         *)
(* A file owns root nodes; nodes refer to shared parts (apertures, segments,  *)
(* macro parts); every node has a units tag that guards its conversion, as in *)
(* Primitive.to_inch/to_metric.  Values are kept in file units with the toy   *)
(* ratio 1 inch = 3 metric.  Invariants: every node of a file is in the       *)
(* file's units, stands for the same physical value, and no node belongs to   *)
(* two files.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxFiles, Vecs, Guarded, DeepCopy
VARIABLES heap,   \* node -> [u, v (own value, file units), pos (has a position), kids]
          files,  \* sequence of [u, roots, base (root of the copy), off]
          hist
vars == <<heap, files, hist>>

\* the object graph of a small file: two lines sharing an aperture, a region
\* of two segments, a macro group of two parts, a command
Graph == << [kids |-> <<3>>, pos |-> TRUE, v |-> 6],      \* 1 line
            [kids |-> <<3>>, pos |-> TRUE, v |-> 9],      \* 2 line
            [kids |-> <<>>, pos |-> FALSE, v |-> 12],     \* 3 shared aperture
            [kids |-> <<5, 6>>, pos |-> FALSE, v |-> 0],  \* 4 region
            [kids |-> <<>>, pos |-> TRUE, v |-> 3],       \* 5, 6 segments
            [kids |-> <<>>, pos |-> TRUE, v |-> 15],
            [kids |-> <<8>>, pos |-> TRUE, v |-> 21],     \* 7 macro group
            [kids |-> <<>>, pos |-> TRUE, v |-> 24],      \* 8 its part
            [kids |-> <<>>, pos |-> TRUE, v |-> 27] >>    \* 9 coordinate command
Roots == <<1, 2, 4, 7, 9>>
N == Len(Graph)
K(u) == IF u = "inch" THEN 3 ELSE 1

Init == /\ heap = [n \in 1..N |-> [u |-> "inch", v |-> Graph[n].v, pos |-> Graph[n].pos, kids |-> Graph[n].kids]]
        /\ files = << [u |-> "inch", roots |-> Roots, off |-> 0] >>
        /\ hist = <<>>

Conv(x, from, to) == IF from = to THEN x ELSE IF to = "metric" THEN x * 3 ELSE x \div 3
RECURSIVE ConvNode(_, _, _), ConvAll(_, _, _)
ConvNode(h, n, u) ==
  IF Guarded /\ h[n].u = u THEN h
  ELSE LET from == IF u = "inch" THEN "metric" ELSE "inch"
           h1 == [h EXCEPT ![n].u = u, ![n].v = Conv(@, from, u)]
       IN ConvAll(h1, h[n].kids, u)
ConvAll(h, ns, u) == IF ns = <<>> THEN h ELSE ConvAll(ConvNode(h, Head(ns), u), Tail(ns), u)
ConvFile(h, f, u) == IF f.u = u THEN h ELSE ConvAll(h, f.roots, u)

RECURSIVE OffNode(_, _, _), OffAll(_, _, _)
OffNode(h, n, d) == OffAll([h EXCEPT ![n].v = IF h[n].pos THEN @ + d ELSE @], h[n].kids, d)
OffAll(h, ns, d) == IF ns = <<>> THEN h ELSE OffAll(OffNode(h, Head(ns), d), Tail(ns), d)
\* the vector is given in physical units
OffFile(h, f, d) == OffAll(h, f.roots, d \div K(f.u))

Reach(h, f) == LET R0 == {f.roots[k] : k \in 1..Len(f.roots)}
               IN R0 \cup UNION {{h[n].kids[k] : k \in 1..Len(h[n].kids)} : n \in R0}
\* deep copy: the reachable nodes, keeping the sharing among them
CopyHeap(h, f) ==
  LET m == Len(h) IN
  IF DeepCopy THEN h \o [n \in 1..N |-> [h[f.b + n] EXCEPT !.kids = [k \in 1..Len(@) |-> @[k] - f.b + m]]]
  ELSE h
Node0(f) == f.roots[1] - 1
WithB(f) == [u |-> f.u, roots |-> f.roots, off |-> f.off, b |-> Node0(f)]
CopyFile(h, f) == IF DeepCopy THEN [f EXCEPT !.roots = [k \in 1..Len(@) |-> @[k] - Node0(f) + Len(h)]] ELSE f

Op(o, f, v, g) == [o |-> o, f |-> f, v |-> v, g |-> g]
Do(f, o, d) ==
  LET fl == files[f]
      h2 == CopyHeap(heap, WithB(fl))
      c  == CopyFile(heap, fl)
  IN CASE o \in {"inch", "metric"} ->
            heap' = ConvFile(heap, fl, o) /\ files' = [files EXCEPT ![f].u = o]
       [] o = "off" -> heap' = OffFile(heap, fl, d) /\ files' = [files EXCEPT ![f].off = @ + d]
       [] o \in {"cinch", "cmetric"} ->
            LET u == IF o = "cinch" THEN "inch" ELSE "metric"
            IN heap' = ConvFile(h2, c, u) /\ files' = Append(files, [c EXCEPT !.u = u])
       [] o = "coff" -> heap' = OffFile(h2, c, d) /\ files' = Append(files, [c EXCEPT !.off = @ + d])
       \* the rewritten file has no node in common with the written one
       [] o \in {"rw", "rwset"} -> heap' = h2 /\ files' = Append(files, c)
       [] OTHER -> UNCHANGED <<heap, files>>
InPlace == {"inch", "metric", "poke"}
Copying == {"cinch", "cmetric", "rw"}
Next == /\ Len(hist) < MaxOps
        /\ \E f \in 1..Len(files) :
             \/ \E o \in InPlace : Do(f, o, 0) /\ hist' = Append(hist, Op(o, f, 0, 0))
             \/ \E d \in Vecs : Do(f, "off", 3 * d) /\ hist' = Append(hist, Op("off", f, d, 0))
             \/ /\ Len(files) < MaxFiles
                /\ \/ \E o \in Copying : Do(f, o, 0) /\ hist' = Append(hist, Op(o, f, 0, 0))
                   \/ \E d \in Vecs : Do(f, "coff", 3 * d) /\ hist' = Append(hist, Op("coff", f, d, 0))
Spec == Init /\ [][Next]_vars

BaseNode(f, n) == Graph[n - Node0(f)]
InUnits == \A k \in 1..Len(files) : \A n \in Reach(heap, files[k]) : heap[n].u = files[k].u
Physical == \A k \in 1..Len(files) : \A n \in Reach(heap, files[k]) :
              LET f == files[k] b == BaseNode(f, n)
              IN heap[n].v * K(f.u) = b.v * 3 + (IF b.pos THEN f.off ELSE 0)
Separate == \A a \in 1..Len(files) : \A b \in 1..Len(files) :
              a # b => Reach(heap, files[a]) \cap Reach(heap, files[b]) = {}
EmitIt == IF Len(hist') = MaxOps THEN PrintT("P " \o ToJson(hist')) ELSE TRUE
VecsDef == {2, -3}
=============================================================================
