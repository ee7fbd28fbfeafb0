------------------------------ MODULE WriterMC ------------------------------
(* Every sequence of objects of a small alphabet is written; the body is   *)
(* read back, command by command, by the reader of Gerber.tla.  The writer *)
(* is right when the image is the normal form of the objects and what the  *)
(* writer remembers is what the reader knows.                              *)
EXTENDS Writer, TLC, Json
CONSTANTS MaxObj, EmitP
VARIABLES w, body, objs, g
vars == <<w, body, objs, g>>

Pts == { <<0, 0>>, <<5, 0>>, <<0, 5>> }
ApA == [sh |-> "C", s |-> <<10>>, h |-> <<>>, n |-> 0, rot |-> 0]
ApB == [sh |-> "R", s |-> <<20, 10>>, h |-> <<4>>, n |-> 0, rot |-> 0]
Pols == {"dark", "clear"}
Tag(o, p) == o @@ [pol |-> p, u |-> "metric"]
Ln(a, b) == [k |-> "line", s |-> a, e |-> b]
Ar(a, b, c, d, q) == [k |-> "arc", s |-> a, e |-> b, ctr |-> c, dir |-> d, q |-> q]
Arcs == { Ar(<<5, 0>>, <<0, 5>>, <<0, 0>>, "counterclockwise", q) : q \in {"single-quadrant", "multi-quadrant"} }
        \cup { Ar(<<0, 5>>, <<5, 0>>, <<0, 0>>, "clockwise", "single-quadrant"),
               Ar(<<5, 0>>, <<5, 0>>, <<0, 0>>, "clockwise", "multi-quadrant") }
Lines == { Ln(a, b) : a \in {<<0, 0>>, <<5, 0>>}, b \in Pts }
Contours == { << Ln(<<0, 0>>, <<5, 0>>), Ar(<<5, 0>>, <<0, 5>>, <<0, 0>>, "counterclockwise", "multi-quadrant"), Ln(<<0, 5>>, <<0, 0>>) >>,
              << Ln(<<5, 0>>, <<5, 0>>), Ln(<<5, 0>>, <<0, 5>>), Ln(<<0, 5>>, <<0, 5>>), Ln(<<0, 5>>, <<5, 0>>) >>,
              << Ar(<<5, 0>>, <<0, 5>>, <<0, 0>>, "counterclockwise", "single-quadrant"), Ar(<<0, 5>>, <<5, 0>>, <<0, 0>>, "clockwise", "single-quadrant") >>,
              << Ln(<<5, 0>>, <<5, 0>>) >> }
Objs == { Tag(l @@ [ap |-> a], p) : l \in Lines, a \in {ApA, ApB}, p \in Pols }
        \cup { Tag(x @@ [ap |-> a], "dark") : x \in Arcs, a \in {ApA, ApB} }
        \cup { Tag([k |-> "flash", p |-> q, ap |-> a], p) : q \in {<<0, 0>>, <<0, 5>>}, a \in {ApA, ApB}, p \in Pols }
        \cup { Tag([k |-> "region", segs |-> c], p) : c \in Contours, p \in Pols }

\* g: the reader; it meets the definition of an aperture before its first use
Defs(a, b) == [k \in 1..Len(b) - Len(a) |-> [c |-> "AD", d |-> 9 + Len(a) + k, ap |-> b[Len(a) + k]]]
Init == w = WInit /\ body = <<>> /\ objs = <<>> /\ g = Run(GInit, << [c |-> "MO", u |-> "metric"] >>)
Next == /\ Len(objs) < MaxObj
        /\ \E o \in Objs : \E r \in {WStep(w, o)} :
             /\ w' = r.w /\ body' = body \o r.out /\ objs' = Append(objs, o)
             /\ g' = Run(Run(g, Defs(w.aps, r.w.aps)), r.out)
Spec == Init /\ [][Next]_vars

\* the writer's and the reader's state decide what follows: one path to each
\* is kept.  An error is part of the view, so no wrong transition is lost.
RightImage == g.img = Norm(objs)
Complete == ~g.region /\ g.contour = <<>>
\* what the writer remembers holds in the reader
Agree == /\ w.pos # <<>> => <<g.x, g.y>> = w.pos
         /\ w.pol # Unset => g.pol = w.pol
         /\ w.quad # Unset => g.quad = w.quad
         /\ w.d # 0 => g.ap = w.d
         /\ w.func = "G01" => g.interp = "linear"
\* every descriptor is defined once
Unique == \A a, b \in 1..Len(w.aps) : a # b => w.aps[a] # w.aps[b]
View == <<w, [g EXCEPT !.img = <<>>], RightImage, objs = <<>> >>
EmitIt == EmitP => PrintT("P " \o ToJson(Header(w', "metric") \o body'))
=============================================================================
