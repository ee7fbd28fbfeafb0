------------------------------ MODULE IncludeMC ------------------------------
(* Design check: for every set of three files that include each other in any  *)
(* way, the stack reader reads what textual inclusion means, and stops with    *)
(* an error exactly when an include nests deeper than the limit.               *)
EXTENDS Layout, TLC
CONSTANTS MaxLen, Lim
VARIABLES items, s
Items == {1, 2, -1, -2, -3}
Bodies == UNION {[1..n -> Items] : n \in 0..MaxLen}
Sym(b) == LET F[i \in 0..Len(b)] == IF i = 0 THEN <<>>
                ELSE F[i - 1] \o (IF b[i] < 0 THEN <<Pct, W(b[i], 1), W(b[i], 2), Star, Pct>> ELSE <<W(b[i], 1), W(b[i], 2), Star>>)
          IN F[Len(b)]
Files == [f \in 1..3 |-> Sym(items[f])]
\* in the smaller runs the third file only has commands
Init == /\ items \in {<<a, b, c>> : a \in Bodies, b \in Bodies, c \in {<<>>, <<1>>, <<-1>>, <<2, -2>>}}
        /\ s = LInit(1)
Next == ~Done(s) /\ s' = LNext(Files, s, Lim) /\ UNCHANGED items
Spec == Init /\ [][Next]_<<items, s>>
Meaning == Flat(items, items[1], Lim)
Right == Done(s) => IF Meaning = Deep THEN s.err = "nesting" ELSE s.err = "" /\ s.out = Meaning
Bounded == Len(s.st) <= Lim + 1
=============================================================================
