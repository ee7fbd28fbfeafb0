------------------------------- MODULE BoardMC -------------------------------
(* Design check.  Mode "stack": layers are added in every order; the stack   *)
(* depends on the bag of layers only.  Mode "names": every documented name   *)
(* and extension in every dressing stands for exactly one class.             *)
EXTENDS Board, Json
CONSTANTS Mode, Depth, Emit, Thin
VARIABLES given, out, name
vars == <<given, out, name>>
L(c, n, s) == [cls |-> c, num |-> n, sides |-> s]
Two == {"top", "bottom"}
Layers == {L(c, 0, Two) : c \in (BoardClasses \cup {"ipc_netlist", "unknown"}) \ {"drill", "internal"}} \cup {L("internal", n, Two) : n \in {1, 2, 10}}
          \cup {L("drill", 0, s) : s \in {Two, {"top"}, {"bottom"}, {}}}
F(t, e, s) == [toks |-> t, ext |-> e, style |-> s]
Pre == {<<>>, <<"board">>, <<"rev2", "main">>, <<"board", "3">>, <<"a_b", "x", "y">>}
Styles == {"lower", "upper", "cap"}
\* (an extension that is no class leaves the name to decide, and vice versa)
NameFiles == {F(p, e, s) : p \in Pre \ {<<>>}, e \in AllExts, s \in Styles} \cup
             {F(p \o n \o q, e, s) : p \in Pre, n \in AllNames, q \in {<<>>, <<"v2">>, <<"07">>}, e \in {"gbr", "pho", ""}, s \in Styles}
             \cup {F(p, e, s) : p \in Pre \ {<<>>}, e \in {"gbr", "txt", "", "art", "g"}, s \in Styles}
Init == IF Mode = "stack" THEN given = <<>> /\ out = <<>> /\ name = <<>>
        ELSE given = <<>> /\ out = <<>> /\ name \in {<<f>> : f \in NameFiles}
Next == /\ Mode = "stack" /\ Len(given) < Depth /\ UNCHANGED name
        /\ \E l \in Layers : given' = Append(given, l) /\ out' = IF OnBoard(l) THEN InsertBy(out, l, TRUE) ELSE out
Spec == Init /\ [][Next]_vars
StackSorted == Sorted(out, TRUE)
\* nothing lost, nothing doubled
OneLayerEach == Bag(out) = Bag(SelectSeq(given, OnBoard))
\* the stack does not depend on the order of presentation: any other insertion order gives the same classes and numbers
RECURSIVE Ins(_)
Ins(s) == IF s = <<>> THEN <<>> ELSE InsertBy(Ins(Tail(s)), Head(s), TRUE)
Shape(s) == [k \in 1..Len(s) |-> <<s[k].cls, s[k].num>>]
Confluent == Shape(Ins(SelectSeq(given, OnBoard))) = Shape(out)
\* physical facts of a stack
Between == \A i, j \in 1..Len(out) : /\ (out[i].cls = "top" /\ out[j].cls \in {"internal", "bottom"} => i < j)
                                     /\ (out[i].cls = "internal" /\ out[j].cls = "bottom" => i < j)
                                     /\ (out[i].cls = "topmask" /\ Copper(out[j]) => i < j)
                                     /\ (out[i].cls = "bottommask" /\ Copper(out[j]) => i > j)
                                     /\ (out[i].cls = "internal" /\ out[j].cls = "internal" /\ out[i].num < out[j].num => i < j)
ViewsDisjoint == \A k \in 1..Len(out) : out[k].cls # "drill" => ~(InView(out[k], TRUE) /\ InView(out[k], FALSE))
\* every known name or extension is unambiguous by itself, whatever dressing it has
Unambiguous == name # <<>> => Cardinality(ClassesOf(name[1])) <= 1
Known == name # <<>> /\ (name[1].ext \in AllExts \/ CarriedNames(name[1]) # {}) => ClassesOf(name[1]) # {}
EmitIt == /\ (Emit /\ Mode = "stack" /\ Len(given) = Depth /\ (Thin = 1 \/ RandomElement(IF Len(given) > 1000 THEN {} ELSE 1..Thin) = 1)) => PrintT("P " \o ToJson([given |-> given]))
          /\ (Emit /\ Mode = "names") => PrintT("P " \o ToJson([name |-> name[1]]))
=============================================================================
