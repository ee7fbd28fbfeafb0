------------------------------ MODULE BoardTrace ------------------------------
(* Validation of classification, stacks and boards made by the code.         *)
EXTENDS Board, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done
vars == <<tid, done>>
Verdict(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))
SetOf(s) == {s[k] : k \in 1..Len(s)}
Same(a, b) == Len(a) = Len(b) /\ \A x \in SetOf(a) \cup SetOf(b) : Count(a, LAMBDA y : y = x) = Count(b, LAMBDA y : y = x)
Idx(ls, P(_)) == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : P(ls[k]))
\* a view: exactly these layers; copper below mask below silk, drills right above a single copper layer
ViewOk(ls, ids, top) ==
  LET Ord == IF top THEN TopOrder ELSE BottomOrder
      seq == [k \in 1..Len(ids) |-> ls[ids[k]]]
      bl == SelectSeq(seq, LAMBDA l : l.cls # "drill")
  IN /\ Same(ids, Idx(ls, LAMBDA l : InView(l, top)))
     /\ \A k \in 1..(Len(bl) - 1) : Pos(bl[k].cls, Ord) <= Pos(bl[k + 1].cls, Ord)
     /\ (Count(bl, LAMBDA l : l.cls = Ord[1]) = 1 => \A i, j \in 1..Len(seq) : seq[i].cls = "drill" /\ seq[j].cls # "drill" => (seq[j].cls = Ord[1]) = (j < i))
\* ls: the layers presented; o: what the board made of them, by index (-1: not one of the presented)
StackVerdict(t, ls, o) ==
  LET all == Idx(ls, OnBoard)
      S(ids) == [k \in 1..Len(ids) |-> ls[ids[k]]]
  IN IF o.err # "" THEN Verdict(t, FALSE, "raised", [error |-> o.err])
     ELSE IF ~Same(o.layers, all) THEN Verdict(t, FALSE, "board-layers", [expected |-> all, observed |-> o.layers])
     ELSE IF ~Sorted(S(o.layers), TRUE) THEN Verdict(t, FALSE, "stack-order", [observed |-> S(o.layers)])
     ELSE IF ~Same(o.frombottom, all) \/ ~Sorted(S(o.frombottom), FALSE) THEN Verdict(t, FALSE, "stack-order-bottom", [observed |-> S(o.frombottom)])
     ELSE IF o.count # Len(all) THEN Verdict(t, FALSE, "board-length", [expected |-> Len(all), observed |-> o.count])
     ELSE IF ~ViewOk(ls, o.top, TRUE) THEN Verdict(t, FALSE, "top-view", [observed |-> S(o.top)])
     ELSE IF ~ViewOk(ls, o.bottom, FALSE) THEN Verdict(t, FALSE, "bottom-view", [observed |-> S(o.bottom)])
     ELSE IF ~Same(o.copper, Idx(ls, Copper)) \/ ~Sorted(S(o.copper), FALSE) THEN Verdict(t, FALSE, "copper-layers", [observed |-> S(o.copper)])
     ELSE IF o.ncopper # Count(ls, Copper) THEN Verdict(t, FALSE, "copper-count", [expected |-> Count(ls, Copper), observed |-> o.ncopper])
     ELSE IF ~Same(o.drill, Idx(ls, LAMBDA l : l.cls = "drill")) THEN Verdict(t, FALSE, "drill-layers", [observed |-> o.drill])
     ELSE LET os == Idx(ls, LAMBDA l : l.cls = "outline")
          IN IF (os = <<>>) # (o.outline = <<>>) \/ ~(SetOf(o.outline) \subseteq SetOf(os)) THEN Verdict(t, FALSE, "outline-layer", [observed |-> o.outline])
     ELSE Verdict(t, TRUE, "", [n |-> Len(all)])
\* a file read from a directory: its index in the files tells which layer it is
DirLayers(t) == [k \in 1..Len(Traces[t].files) |->
   LET f == Traces[t].files[k] IN [cls |-> IF f.kind \in Readable THEN Traces[t].obs.cls[k] ELSE "none",
                                   num |-> 0, sides |-> {"top", "bottom"}]]
NumSorted(ns) == \A i, j \in 1..Len(ns) : i < j /\ ns[i] # 0 /\ ns[j] # 0 => ns[i] <= ns[j]
DirVerdict(t, fs, o) ==
  IF o.err # "" THEN Verdict(t, FALSE, "raised", [error |-> o.err])
  ELSE LET bad == {k \in 1..Len(fs) : fs[k].kind \in Readable /\ o.cls[k] \notin Possible(fs[k], fs[k].kind)}
       IN IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE
                           IN Verdict(t, FALSE, "layer-class", [file |-> fs[k], expected |-> Possible(fs[k], fs[k].kind), observed |-> o.cls[k]])
  ELSE LET mixed == {k \in 1..Len(o.files) : o.files[k] # o.content[k]}
       IN IF mixed # {} THEN Verdict(t, FALSE, "layer-content", [files |-> o.files, content |-> o.content])
  ELSE LET ints == SelectSeq(o.layers, LAMBDA k : k > 0 /\ fs[k].kind = "gerber" /\ o.cls[k] = "internal")
       IN IF ~NumSorted([k \in 1..Len(ints) |-> NumberOf(fs[ints[k]])])
          THEN Verdict(t, FALSE, "internal-order", [observed |-> [k \in 1..Len(ints) |-> fs[ints[k]]]])
  ELSE LET outl == SelectSeq(o.layers, LAMBDA k : o.cls[k] = "outline")
           tops == SelectSeq(o.layers, LAMBDA k : o.cls[k] = "top")
           src == IF outl # <<>> THEN outl ELSE tops
       IN IF (src = <<>>) # (o.bounds = <<>>) \/ ~(SetOf(o.bounds) \subseteq SetOf(src)) THEN Verdict(t, FALSE, "board-bounds", [expected |-> src, observed |-> o.bounds])
  ELSE LET stems == {Traces[t].stems[k] : k \in {k \in 1..Len(fs) : fs[k].kind \in Readable}}
           plain == \A k \in 1..Len(fs) : fs[k].kind \in Readable => Len(fs[k].toks) = 1
       IN IF plain /\ Cardinality(stems) = 1 /\ o.name \notin stems THEN Verdict(t, FALSE, "board-name", [expected |-> stems, observed |-> o.name])
  ELSE StackVerdict(t, DirLayers(t), o)
NameVerdict(t, f, o) ==
  IF o.err # "" THEN Verdict(t, FALSE, "raised", [error |-> o.err])
  ELSE IF \E k \in 1..Len(o.guess) : o.guess[k] \notin Possible(f, "gerber")
       THEN Verdict(t, FALSE, "guessed-class", [expected |-> Possible(f, "gerber"), observed |-> o.guess])
  ELSE Verdict(t, TRUE, "", [n |-> Len(o.guess)])
Judge(t) == LET T == Traces[t] IN
  CASE T.c = "stack" -> StackVerdict(t, [k \in 1..Len(T.given) |-> [cls |-> T.given[k].cls, num |-> T.given[k].num, sides |-> SetOf(T.given[k].sides)]], T.obs)
    [] T.c = "name"  -> NameVerdict(t, T.name, T.obs)
    [] OTHER         -> DirVerdict(t, T.files, T.obs)
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ Judge(tid) /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
