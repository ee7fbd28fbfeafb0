------------------------------- MODULE Command -------------------------------
(* The command line: which pictures it makes of a board, or of a list of      *)
(* files, and what lies on them, lowest first.                                 *)
EXTENDS Board
Masks == {"topmask", "bottommask"}          \* their files describe the openings
Below == {"bottom", "bottommask", "bottomsilk"}
Views == {"top", "bottom", "copper"}
IdxOf(ls, P(_)) == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : P(ls[k]))
Of(ls, c) == IdxOf(ls, LAMBDA l : l.cls = c)
\* internal layers, the highest number lowest
RECURSIVE Down(_, _)
Down(ls, ks) == IF ks = <<>> THEN <<>>
                ELSE LET top == CHOOSE n \in 1..Len(ks) : \A j \in 1..Len(ks) : ls[ks[j]].num <= ls[ks[n]].num
                     IN <<ks[top]>> \o Down(ls, SubSeq(ks, 1, top - 1) \o SubSeq(ks, top + 1, Len(ks)))
FirstOf(ks) == IF ks = <<>> THEN <<>> ELSE <<ks[1]>>
\* the layers of a picture; a board has at most one layer of a class but for drills and internal layers
Picture(ls, view) ==
  LET o == FirstOf(Of(ls, "outline"))
  IN CASE view = "top"    -> o \o Of(ls, "top") \o Of(ls, "drill") \o Of(ls, "topmask") \o Of(ls, "topsilk")
       [] view = "bottom" -> o \o Of(ls, "bottom") \o Of(ls, "drill") \o Of(ls, "bottommask") \o Of(ls, "bottomsilk")
       [] OTHER -> o \o Of(ls, "bottom") \o Down(ls, Of(ls, "internal")) \o Of(ls, "top")
                     \o (IF o = <<>> THEN <<>> ELSE Of(ls, "drill"))
\* how a layer is shown
Mirrored(cls, view) == CASE view = "bottom" -> TRUE [] view \in {"top", "copper"} -> FALSE [] OTHER -> cls \in Below
Inverted(cls) == cls \in Masks
Made(ls) == {v \in Views : Picture(ls, v) # <<>>}
\* the colour of a layer on a picture: that of its class, internal layers take turns
Turn(ls, ks, n) == Cardinality({j \in 1..n : ls[ks[j]].cls = "internal"})
=============================================================================
