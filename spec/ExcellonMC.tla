----------------------------- MODULE ExcellonMC -----------------------------
(* Exhaustive exploration of the drill file reader's modal state; every     *)
(* transition is emitted as a program for the conformance driver.           *)
EXTENDS Excellon, TLC, Json
CONSTANTS Coords, MaxHits, MaxPos, Emit, Rich, Thin
VARIABLES s, hist
vars == <<s, hist>>
Ext0 == << Tool(3, 900000, "nonplated") >>
Prologue == << K("m48"), C("unit", 0, <<>>, <<>>, <<>>, <<>>, 0, "metric") >>
Opt(S) == {<<>>} \cup {<<v>> : v \in S}
Small ==
  {K(c) : c \in {"pct", "m95", "m00", "m15", "m16", "g05"}} \cup
  {C("tdef", n, <<>>, <<>>, <<>>, <<>>, 500000, "") : n \in {1, 2}} \cup
  {KN("tsel", n) : n \in {0, 1, 2}} \cup
  {C("inc", 0, <<>>, <<>>, <<>>, <<>>, 0, u) : u \in {"on", "off"}} \cup
  {KXY(c, x, y) : c \in {"g00", "g01", "xy"}, x \in Opt(Coords), y \in {<<>>, <<3>>}} \cup
  {C("slot", 0, <<3>>, y, x2, y2, 0, "") : y \in {<<>>, <<0>>}, x2 \in Opt({0}), y2 \in Opt({3})} \cup
  {C("rep", 2, x, y, <<>>, <<>>, 0, "") : x \in {<<>>, <<3>>}, y \in {<<>>, <<3>>}}
More ==
  {K(c) : c \in {"m17", "nop"}} \cup
  {C("hole", 2, <<>>, <<>>, <<>>, <<>>, 700000, "plated")} \cup
  {KN("tsel", n) : n \in {3}} \cup
  {KXY(c, x, y) : c \in {"g00", "g01", "xy"}, x \in Opt(Coords), y \in Opt(Coords)} \cup
  {C("slot", 0, <<>>, y, x2, y2, 0, "") : y \in Opt(Coords), x2 \in Opt({3}), y2 \in Opt({3})} \cup
  {C("rep", 1, x, y, <<>>, <<>>, 0, "") : x \in {<<>>, <<3>>}, y \in {<<>>, <<3>>}}
Cmds == IF Rich THEN Small \cup More ELSE Small
Init == hist = Prologue /\ s = XRun(XInit(Ext0), Prologue)
Next == \E c \in Cmds : XOk(s, c) /\ s' = XStep(s, c) /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_vars
Bound == Len(s.hits) <= MaxHits /\ s.x <= MaxPos /\ s.y <= MaxPos
Tk(t) == [t EXCEPT !.h = 0]
View == [s EXCEPT !.hits = Len(s.hits), !.tools = [k \in 1..Len(@) |-> Tk(@[k])]]
EmitIt == (Emit /\ (Thin = 1 \/ RandomElement(IF hist = <<>> THEN {} ELSE 1..Thin) = 1)) => PrintT("P " \o ToJson(hist'))
\* --- properties --------------------------------------------------------------
TypeOK == s.st \in {"init", "header", "drill", "rout", "linear"} /\ s.down \in BOOLEAN
\* every hit is made with a tool of the file, and the tools' counts add up
Sum(ts) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE ts[k].h + S(k - 1) IN S(Len(ts))
ToolsKnown == \A k \in 1..Len(s.hits) : Has(s.tools, s.hits[k].t)
CountsMatch == \A k \in 1..Len(s.tools) : s.tools[k].h = Len(OfTool(s.hits, s.tools[k].n))
OneRecordPerTool == \A a, b \in 1..Len(s.tools) : s.tools[a].n = s.tools[b].n => a = b
WriteKeeps == LET w == XWritten(s) IN
              /\ Len(w.hits) = Len(s.hits)
              /\ \A k \in 1..Len(s.tools) : OfTool(w.hits, s.tools[k].n) = OfTool(s.hits, s.tools[k].n)
LastCmd == hist'[Len(hist')]
OnlyGrows == [][Len(s'.hits) >= Len(s.hits) /\ SubSeq(s'.hits, 1, Len(s.hits)) = s.hits]_vars
DrawsOnlyDown == [][Len(s'.hits) > Len(s.hits) /\ s'.hits[Len(s'.hits)].k = "rout"
                    => s.down /\ s'.st = "linear" /\ s'.hits[Len(s'.hits)].pts = << <<s.x, s.y>>, <<s'.x, s'.y>> >>]_vars
\* a command in incremental notation does what the one with the resulting points does
Rel(o, r) == <<r + Or(o, 0)>>
AbsOf(t, c) == IF c.c = "slot" THEN [c EXCEPT !.x = Rel(c.x, t.x), !.y = Rel(c.y, t.y),
                                       !.x2 = <<Rel(c.x, t.x)[1] + Or(c.x2, 0)>>, !.y2 = <<Rel(c.y, t.y)[1] + Or(c.y2, 0)>>]
               ELSE IF c.c = "rep" THEN c ELSE [c EXCEPT !.x = Rel(c.x, t.x), !.y = Rel(c.y, t.y)]
Incremental == [][s.inc /\ s'.inc => s' = [XStep([s EXCEPT !.inc = FALSE], AbsOf(s, LastCmd)) EXCEPT !.inc = TRUE]]_vars
PositionFollows == [][Len(s'.hits) > Len(s.hits)
                      => LET p == s'.hits[Len(s'.hits)].pts IN p[Len(p)] = <<s'.x, s'.y>>]_vars
=============================================================================
