-------------------------------- MODULE IpcMC --------------------------------
(* Exhaustive sequences of lines over a small alphabet (units, aliases,      *)
(* continuations, adjacency), and - Static - single test records with every  *)
(* subset of the optional columns.                                           *)
EXTENDS Ipc, TLC, Json
CONSTANTS Depth, Static, Emit, Thin
VARIABLES s, hist
vars == <<s, hist>>
Test(code, net, id, pin, mid, dia, pl, acc, x, y, w, h, rot, sm) ==
  [c |-> "test", code |-> code, net |-> net, id |-> id, pin |-> pin, mid |-> mid, dia |-> dia, pl |-> pl, acc |-> acc,
   x |-> x, y |-> y, w |-> w, h |-> h, rot |-> rot, sm |-> sm, opt |-> IF sm = "3" THEN "Q" ELSE ""]
Par(p, v) == [c |-> "par", p |-> p, v |-> v, alias |-> FALSE]
NName(p, v) == [c |-> "par", p |-> p, v |-> v, alias |-> TRUE]
Pt(x, y) == <<x, y>>
Small == { Par("UNITS", "CUST 1"), Par("UNITS", "CUST 2"), Par("UNITS", "CUST 0"), Par("JOB", "TEST BOARD"),
           NName("NNAME1", "A_LONG_NET_NAME"), NName("NNAME2", "OTHER"),
           [c |-> "com", t |-> "comment"], [c |-> "eof"], [c |-> "blank"],
           Test("317", "GND", "VIA", "", FALSE, <<24>>, "P", 0, 14900, -1450, <<396>>, <<396>>, <<>>, ""),
           Test("327", "NNAME1", "C1", "1", FALSE, <<>>, "", 1, -9700, 10402, <<1575>>, <<630>>, <<3>>, "2"),
           Test("367", "", "J2", "A2", TRUE, <<125>>, "U", 8, 0, 0, <<>>, <<>>, <<>>, ""),
           [c |-> "out", t |-> "BOARD_EDGE", pts |-> <<Pt(<<0>>, <<-50>>), Pt(<<22500>>, <<>>)>>],
           [c |-> "adj", net |-> "GND", nets |-> <<"NNAME1", "VCC">>], [c |-> "adj", net |-> "NNAME1", nets |-> <<"OTHER">>],
           [c |-> "cond", net |-> "NNAME2", layer |-> 2, ap |-> <<<<100>>, <<>>>>, pts |-> <<<<Pt(<<10>>, <<20>>), Pt(<<>>, <<-30>>)>>>>],
           [c |-> "cont", nets |-> <<"GND", "NNAME2">>, pts |-> <<Pt(<<>>, <<15000>>), Pt(<<-1300>>, <<240>>)>>] }
Opt(S) == {<<>>} \cup {<<v>> : v \in S}
Singles == { Test(code, net, id, pin, mid, dia, pl, acc, x, y, w, h, rot, sm) :
             code \in {"317", "367"}, net \in {"A"}, id \in {"VIA", "COMMUNICATION"}, pin \in {"", "12"}, mid \in BOOLEAN, dia \in Opt({240}), pl \in {"", "P"},
             acc \in {7}, x \in {-123456}, y \in {650}, w \in Opt({1230}), h \in Opt({45}), rot \in Opt({270}), sm \in {"", "3"} }
Init == s = IInit /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E l \in (IF Static THEN Singles ELSE Small) : IOk(s, l) /\ s' = IStep(s, l) /\ hist' = Append(hist, l)
Spec == Init /\ [][Next]_vars
F == Flush(s)
\* one record per test line, in order
TestLines == SelectSeq(hist, LAMBDA l : l.c = "test")
OnePerLine == /\ Len(OfKind(F, "test")) = Len(TestLines)
              /\ \A k \in 1..Len(TestLines) : OfKind(F, "test")[k].id = TestLines[k].id /\ OfKind(F, "test")[k].x = TestLines[k].x
Symmetric == \A a, b \in NetNames(F) : b \in Adjacent(F, a) <=> a \in Adjacent(F, b)
AliasesGone == \A k \in 1..Len(F.st) : F.st[k].c = "test" /\ F.st[k].net = "NNAME1" =>
                 \A n \in 1..k : ~(F.st[n].c = "par" /\ F.st[n].p = "NNAME1")
OnlyGrows == [][Len(s'.st) >= Len(s.st) /\ SubSeq(s'.st, 1, Len(s.st)) = s.st]_vars
UnitsOfRecord == \A k \in 1..Len(F.st) : F.st[k].c = "test" =>
   LET ps == {n \in 1..(k - 1) : F.st[n].c = "par" /\ F.st[n].p = "UNITS"}
   IN F.st[k].u = IF ps = {} THEN "inch" ELSE IF F.st[CHOOSE n \in ps : \A m \in ps : m <= n].v = "CUST 1" THEN "metric" ELSE "inch"
EmitIt == (Emit /\ Len(hist) = Depth /\ (Thin = 1 \/ RandomElement(IF Len(hist) > 1000 THEN {} ELSE 1..Thin) = 1)) => PrintT("P " \o ToJson(hist))
=============================================================================
