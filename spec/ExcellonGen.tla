----------------------------- MODULE ExcellonGen -----------------------------
(* Random well-formed drill files (TLC -simulate).                          *)
EXTENDS Excellon, TLC, Json
CONSTANTS Depth, Grid
VARIABLES s, hist, ext, done
vars == <<s, hist, ext, done>>
GridDef == {-9, -5, -4, 0, 3, 5, 8, 12}
Pick(S) == RandomElement(IF hist = <<0>> THEN {} ELSE S)   \* drawn per step, not once
Nums == {1, 2, 3, 4, 7, 12, 99, 100, 123}
Dia == 1..40
\* now and then tools of one size
TD(z) == C("tdef", Pick(Nums), <<>>, <<>>, <<>>, <<>>, IF Pick(1..3) = 1 THEN 20 ELSE Pick(Dia), "")
HL(z) == C("hole", Pick({1, 2, 5, 6, 13}), <<>>, <<>>, <<>>, <<>>, Pick(Dia), Pick({"plated", "nonplated", "optional"}))
PL(z) == C("plated", 0, <<>>, <<>>, <<>>, <<>>, 0, Pick({"plated", "nonplated"}))
UN(z) == C("unit", 0, <<>>, <<>>, <<>>, <<>>, 0, Pick({"inch", "metric"}))
IC(u) == C("inc", 0, <<>>, <<>>, <<>>, <<>>, 0, u)
HdrItem(r) == IF r <= 6 THEN <<TD(r)>> ELSE IF r = 7 THEN <<HL(r)>> ELSE IF r = 8 THEN <<PL(r)>>
              ELSE IF r = 9 THEN <<IC(Pick({"on", "off"}))>> ELSE <<K("nop")>>
RECURSIVE Hdr(_)
Hdr(n) == IF n = 0 THEN <<>> ELSE HdrItem(Pick(1..10)) \o Hdr(n - 1)
RECURSIVE ExtT(_)
ExtT(n) == IF n = 0 THEN <<>> ELSE Put(ExtT(n - 1), Tool(Pick({1, 2, 5, 8, 14}), Pick(Dia), Pick({"plated", "nonplated"})))
Pro(r, z) == (IF r <= 5 THEN <<K("m48")>> ELSE IF r = 6 THEN <<K("pct"), K("m48")>>
              ELSE IF r = 7 THEN <<K("hdr")>> ELSE <<K("nop"), K("m48")>>)
          \o <<UN(z)>>
          \o (IF r = 7 THEN <<HL(z), HL(z + 1), HL(z + 2)>> ELSE IF r = 8 THEN <<>> ELSE <<TD(z)>> \o Hdr(Pick(0..5)))
          \o (IF r = 4 THEN <<K("m95"), K("pct")>> ELSE IF r = 3 THEN <<K("m95")>> ELSE <<K("pct")>>)
          \o (IF r % 2 = 0 THEN <<K("g05")>> ELSE <<>>)
Defined == {s.tools[k].n : k \in 1..Len(s.tools)} \cup {s.ctools[k].n : k \in 1..Len(s.ctools)} \cup {s.ext[k].n : k \in 1..Len(s.ext)}
Opt(S, m) == IF m = 0 THEN <<>> ELSE <<Pick(S)>>
XY(c, m) == KXY(c, IF m = 1 THEN <<>> ELSE <<Pick(Grid)>>, IF m = 2 THEN <<>> ELSE <<Pick(Grid)>>)
Sel(r) == KN("tsel", IF Defined # {} /\ r % 16 # 0 THEN Pick(Defined) ELSE Pick(Nums \cup {0}))
Body(r, m) ==
  CASE r <= 38 -> XY("xy", m)
    [] r <= 50 -> Sel(r)
    [] r <= 57 -> C("rep", Pick({1, 2, 3, 4, 4, 11}), IF m = 1 THEN <<>> ELSE <<Pick({-3, -1, 1, 2, 5})>>, IF m = 2 THEN <<>> ELSE <<Pick({-3, 1, 2})>>, <<>>, <<>>, 0, "")
    [] r <= 68 -> C("slot", 0, Opt(Grid, Pick(0..2)), Opt(Grid, Pick(0..2)), Opt(Grid, Pick(0..1)), Opt(Grid, Pick(0..1)), 0, "")
    [] r <= 74 -> XY("g00", m)
    [] r <= 82 -> XY("g01", m)
    [] r <= 87 -> K("m15")
    [] r <= 90 -> K(Pick({"m16", "m17"}))
    [] r <= 95 -> K("g05")
    [] r <= 96 -> K("m00")
    [] r <= 98 -> IC(Pick({"on", "off"}))
    [] OTHER   -> K("nop")
Init == hist = <<>> /\ s = XInit(<<>>) /\ ext = <<>> /\ done = FALSE
Next ==
  \/ /\ hist = <<>>
     /\ \E e \in {IF Pick(1..4) = 1 THEN ExtT(3) ELSE <<>>} : \E p \in {Pro(Pick(1..8), 1)} :
          ext' = e /\ hist' = p /\ s' = XRun(XInit(e), p)
     /\ UNCHANGED done
  \/ /\ ~done /\ Len(hist) < Depth /\ hist # <<>>
     /\ \E k \in 1..12 : \E r \in {Pick(1..100)} : \E m \in {Pick(0..7)} : \E c \in {Body(r, m)} :
          XOk(s, c) /\ s' = XStep(s, c) /\ hist' = Append(hist, c)
     /\ UNCHANGED <<ext, done>>
  \/ /\ ~done /\ Len(hist) >= Depth
     /\ PrintT("P " \o ToJson([cmds |-> hist, ext |-> ext]))
     /\ done' = TRUE /\ UNCHANGED <<s, hist, ext>>
Spec == Init /\ [][Next]_vars
ToolsKnown == \A k \in 1..Len(s.hits) : Has(s.tools, s.hits[k].t)
CountsMatch == \A k \in 1..Len(s.tools) : s.tools[k].h = Len(OfTool(s.hits, s.tools[k].n))
=============================================================================
