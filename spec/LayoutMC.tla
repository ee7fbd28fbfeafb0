------------------------------- MODULE LayoutMC -------------------------------
(* Design check: every layout of every sequence of command kinds is read      *)
(* back as that sequence.  The decisions are emitted for replay.              *)
EXTENDS Layout, TLC, Json
CONSTANTS Depth, Thin, MaxNl
VARIABLES kinds, ds, text, open
vars == <<kinds, ds, text, open>>
D(kind) == IF kind = "p" THEN {[glue |-> g, brk |-> <<a, b, c>>, nl |-> n] : g \in BOOLEAN, a, b, c \in BOOLEAN, n \in 0..MaxNl}
           ELSE {[glue |-> FALSE, brk |-> <<FALSE, FALSE, FALSE>>, nl |-> n] : n \in 0..MaxNl}
Init == kinds = <<>> /\ ds = <<>> /\ text = <<>> /\ open = FALSE
Next == /\ Len(kinds) < Depth
        /\ \E kind \in {"p", "w"} : \E d \in D(kind) :
             /\ kinds' = Append(kinds, kind) /\ ds' = Append(ds, d)
             /\ text' = text \o Put(kind, Len(kinds) + 1, d, open)
             /\ open' = (kind = "p")
Spec == Init /\ [][Next]_vars
R == LRun(<<text \o Shut(open)>>, LInit(1), 0)
LayoutIrrelevant == /\ R.err = "" /\ R.out = [k \in 1..Len(kinds) |-> k]
                    /\ R.blks = [k \in 1..Len(kinds) |-> kinds[k] = "p"]
EmitIt == (Len(kinds) = Depth /\ RandomElement(IF Len(kinds) > 1000 THEN {} ELSE 1..Thin) = 1) => PrintT("P " \o ToJson([kinds |-> kinds, ds |-> ds]))
=============================================================================
