------------------------------ MODULE CommandMC ------------------------------
(* The command at work: files are given, each file read joins the stack, the  *)
(* pictures are painted layer by layer from the views of the stack; the        *)
(* result is what Command says of the board.                                   *)
EXTENDS Command, Json
CONSTANTS MaxLayers, Emit
VARIABLES given, todo, stack, view, sheet, pics
vars == <<given, todo, stack, view, sheet, pics>>
L(c, n) == [cls |-> c, num |-> n, sides |-> {"top", "bottom"}]
Pool == {L(c, 0) : c \in {"outline", "top", "topmask", "topsilk", "bottom", "bottommask", "bottomsilk", "drill", "toppaste", "drawing"}}
        \cup {L("internal", n) : n \in {1, 2, 12}}
Init == /\ \E S \in SUBSET Pool : S # {} /\ Cardinality(S) <= MaxLayers /\ todo = S /\ given = S
        /\ stack = <<>> /\ view = "" /\ sheet = <<>> /\ pics = <<>>
\* any order of reading
Read == \E l \in todo : /\ todo' = todo \ {l} /\ stack' = InsertBy(stack, l, TRUE) /\ UNCHANGED <<given, view, sheet, pics>>
Bottommost == <<"copper", "bottom", "top">>      \* pictures still to be made, last first
\* what the views of the stack present, outline first
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Only(s, C) == SelectSeq(s, LAMBDA l : l.cls \in C)
ViewOf(v) ==
  LET o == Only(stack, {"outline"})
      d == Only(stack, {"drill"})
  IN CASE v = "top"    -> o \o Only(stack, {"top"}) \o d \o Reverse(Only(stack, {"topmask", "topsilk"}))
       [] v = "bottom" -> o \o Only(stack, {"bottom"}) \o d \o Only(stack, {"bottommask", "bottomsilk"})
       [] OTHER        -> o \o Reverse(Only(stack, {"top", "internal", "bottom"})) \o (IF o = <<>> THEN <<>> ELSE d)
NextView == CASE view = "" -> "top" [] view = "top" -> "bottom" [] view = "bottom" -> "copper" [] OTHER -> "end"
Turn1 == /\ todo = {} /\ view # "end" /\ (IF view = "" THEN TRUE ELSE sheet = ViewOf(view))
         /\ view' = NextView /\ sheet' = <<>>
         /\ pics' = IF view = "" \/ sheet = <<>> THEN pics ELSE Append(pics, [view |-> view, sheet |-> sheet])
         /\ UNCHANGED <<given, todo, stack>>
Paint1 == /\ view \in Views /\ Len(sheet) < Len(ViewOf(view))
          /\ sheet' = Append(sheet, ViewOf(view)[Len(sheet) + 1]) /\ UNCHANGED <<given, todo, stack, view, pics>>
Next == Read \/ Turn1 \/ Paint1
Spec == Init /\ [][Next]_vars
Ended == view = "end"
\* --- facts of the pictures -------------------------------------------------------
Pics(v) == SelectSeq(pics, LAMBDA p : p.view = v)
AsSpecified == Ended => /\ {pics[k].view : k \in 1..Len(pics)} = Made(stack)
                        /\ \A k \in 1..Len(pics) : LET ks == Picture(stack, pics[k].view) IN pics[k].sheet = [n \in 1..Len(ks) |-> stack[ks[n]]]
Has(p, l) == \E k \in 1..Len(p.sheet) : p.sheet[k] = l
At2(p, l) == CHOOSE k \in 1..Len(p.sheet) : p.sheet[k] = l
EachOnce == \A k \in 1..Len(pics) : \A i, j \in 1..Len(pics[k].sheet) : i # j => pics[k].sheet[i] # pics[k].sheet[j]
SidesApart == \A k \in 1..Len(pics) : pics[k].view # "copper" =>
                 \A n \in 1..Len(pics[k].sheet) : LET l == pics[k].sheet[n] IN l.cls \in {"outline", "drill"} \/ InView(l, pics[k].view = "top")
AllCopper == Ended => \A l \in given : Copper(l) => \E k \in 1..Len(pics) : pics[k].view = "copper" /\ Has(pics[k], l)
AllSides == Ended => \A l \in given : \A b \in BOOLEAN : InView(l, b) /\ l.cls # "internal"
              => \E k \in 1..Len(pics) : pics[k].view = (IF b THEN "top" ELSE "bottom") /\ Has(pics[k], l)
\* nearer to the eye is painted later; a drill is seen through the mask and not through the copper
NearIsLater == \A k \in 1..Len(pics) : LET p == pics[k] IN \A l, m \in given : Has(p, l) /\ Has(p, m) /\ InStack(l) /\ InStack(m) /\ l.cls # "outline" /\ m.cls # "outline"
                 /\ Rank(l, p.view # "bottom") < Rank(m, p.view # "bottom") => At2(p, l) > At2(p, m)
DrillBetween == \A k \in 1..Len(pics) : LET p == pics[k] IN \A l, m \in given : Has(p, l) /\ Has(p, m) /\ l.cls = "drill" /\ InStack(m) => (At2(p, m) < At2(p, l)) = (Copper(m) \/ m.cls = "outline")
OutlineLowest == \A k \in 1..Len(pics) : LET p == pics[k] IN \A l \in given : Has(p, l) /\ l.cls = "outline" => At2(p, l) = 1
Tell == (Emit /\ Ended) => PrintT("P " \o ToJson([layers |-> stack]))
=============================================================================
