------------------------------ MODULE Excellon ------------------------------
(***************************************************************************)
(* The Excellon (drill file) reader as a state machine over abstract lines. *)
(* A command is [c, n, x, y, x2, y2, d, u]: x, y, x2, y2 are <<>> when left *)
(* out of the line, else <<v>> (integers on an abstract grid); d is a tool  *)
(* diameter in nanometres; u a word (units, plating); n a number.           *)
(*                                                                          *)
(* State: st     "init" "header" "drill" "rout" "linear"                    *)
(*        down   the routing tool is down                                   *)
(*        tool   number of the active tool, 0 when none                     *)
(*        inc    coordinates are relative to the current position           *)
(*        x, y   current position                                           *)
(*        tools  sequence of [n, d, p, h]: number, diameter, plating, hits   *)
(*        ctools, ext   tools known from comments / from a separate list     *)
(*        plated what the comments say about tools defined from here on      *)
(*        hits   sequence of [k, t, pts], k in {"hole", "g85", "rout"}       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

C(c, n, x, y, x2, y2, d, u) == [c |-> c, n |-> n, x |-> x, y |-> y, x2 |-> x2, y2 |-> y2, d |-> d, u |-> u]
K(c) == C(c, 0, <<>>, <<>>, <<>>, <<>>, 0, "")
KN(c, n) == C(c, n, <<>>, <<>>, <<>>, <<>>, 0, "")
KXY(c, x, y) == C(c, 0, x, y, <<>>, <<>>, 0, "")

XInit(ext) == [st |-> "init", down |-> FALSE, inc |-> FALSE, tool |-> 0, x |-> 0, y |-> 0, tools |-> <<>>,
               ctools |-> <<>>, ext |-> ext, plated |-> "", hits |-> <<>>, u |-> "inch"]

Has(ts, n) == \E k \in 1..Len(ts) : ts[k].n = n
At(ts, n) == CHOOSE k \in 1..Len(ts) : ts[k].n = n
Get(ts, n) == ts[At(ts, n)]
Put(ts, t) == IF Has(ts, t.n) THEN [ts EXCEPT ![At(ts, t.n)] = t] ELSE Append(ts, t)
Tool(n, d, p) == [n |-> n, d |-> d, p |-> p, h |-> 0]
Known(s, n) == Has(s.tools, n) \/ Has(s.ctools, n) \/ Has(s.ext, n)

\* a tool becomes part of the file when it is first needed
Need(s, n) ==
  IF Has(s.tools, n) THEN s
  ELSE IF Has(s.ctools, n) THEN [s EXCEPT !.tools = Append(@, Get(s.ctools, n))]
  ELSE IF Has(s.ext, n) THEN [s EXCEPT !.tools = Append(@, Get(s.ext, n))]
  ELSE s
\* the size of a tool that is nowhere defined
Fallback(n) == (16 + 8 * n) * 25400
Active(s) == IF s.tool # 0 THEN s ELSE [Need(s, 1) EXCEPT !.tool = 1]
Count(s, m) == [s EXCEPT !.tools[At(s.tools, s.tool)].h = @ + m]
AddHit(s0, k, pts) ==
  LET s == Active(s0) IN Count([s EXCEPT !.hits = Append(@, [k |-> k, t |-> s.tool, pts |-> pts])], 1)

Or(o, v) == IF o = <<>> THEN v ELSE o[1]
\* a coordinate: relative to r or left out as 0 / absolute or left out as r
Co(s, o, r) == IF s.inc THEN r + Or(o, 0) ELSE Or(o, r)
MoveTo(s, c) == [s EXCEPT !.x = Co(s, c.x, s.x), !.y = Co(s, c.y, s.y)]
Route(s, c) ==      \* to the point of c, drawing when the tool is down
  LET t == MoveTo(s, c)
  IN IF s.down THEN AddHit(t, "rout", << <<s.x, s.y>>, <<t.x, t.y>> >>) ELSE t
RECURSIVE Rep(_, _)
Rep(s, c) ==
  IF c.n = 0 THEN s
  ELSE LET t == [s EXCEPT !.x = @ + Or(c.x, 0), !.y = @ + Or(c.y, 0)]
       IN Rep(AddHit(t, "hole", << <<t.x, t.y>> >>), [c EXCEPT !.n = @ - 1])
Slot(s, c) ==
  LET a == <<Co(s, c.x, s.x), Co(s, c.y, s.y)>>
      b == <<Co(s, c.x2, a[1]), Co(s, c.y2, a[2])>>
  IN AddHit([s EXCEPT !.x = b[1], !.y = b[2]], "g85", <<a, b>>)

XStep(s, c) ==
  CASE c.c = "m48"  -> [s EXCEPT !.st = "header"]
    [] c.c = "hdr"  -> [s EXCEPT !.st = "header"]
    [] c.c = "pct"  -> [s EXCEPT !.st = IF @ = "header" THEN "drill" ELSE IF @ = "init" THEN "header" ELSE @]
    [] c.c = "m95"  -> [s EXCEPT !.st = IF @ = "header" THEN "drill" ELSE @]
    [] c.c = "unit" -> [s EXCEPT !.u = c.u]
    [] c.c = "plated" -> [s EXCEPT !.plated = c.u]
    [] c.c = "tdef" -> [s EXCEPT !.tools = Put(@, Tool(c.n, c.d,
                          IF s.plated # "" THEN s.plated ELSE IF Has(s.ext, c.n) THEN Get(s.ext, c.n).p ELSE ""))]
    [] c.c = "hole" -> [s EXCEPT !.st = "header", !.ctools = Put(@, Tool(c.n, c.d, c.u)),
                          !.tools = IF Has(@, c.n) /\ Get(@, c.n).p = "" THEN [@ EXCEPT ![At(@, c.n)].p = c.u] ELSE @]
    [] c.c = "tsel" -> IF c.n = 0 THEN s
                       ELSE LET t == IF Known(s, c.n) THEN Need(s, c.n)
                                     ELSE [s EXCEPT !.tools = Append(@, Tool(c.n, Fallback(c.n), ""))]
                            IN [t EXCEPT !.tool = c.n]
    [] c.c = "inc"  -> [s EXCEPT !.inc = (c.u = "on")]
    [] c.c = "m00"  -> [Need(s, s.tool + 1) EXCEPT !.tool = @ + 1]
    [] c.c = "m15"  -> [s EXCEPT !.down = TRUE]
    [] c.c \in {"m16", "m17"} -> [s EXCEPT !.down = FALSE]
    [] c.c = "g05"  -> [s EXCEPT !.st = "drill", !.down = FALSE]
    [] c.c = "g00"  -> [MoveTo(s, c) EXCEPT !.st = "rout"]
    [] c.c = "g01"  -> [Route(s, c) EXCEPT !.st = "linear"]
    [] c.c = "xy"   -> IF s.st = "linear" THEN Route(s, c)
                       ELSE IF s.st = "rout" THEN MoveTo(s, c)
                       ELSE LET t == MoveTo(s, c) IN AddHit(t, "hole", << <<t.x, t.y>> >>)
    [] c.c = "slot" -> Slot(s, c)
    [] c.c = "rep"  -> Rep(s, c)
    [] OTHER        -> s

\* --- well-formed files -----------------------------------------------------
AnyXY(c) == c.x # <<>> \/ c.y # <<>>
ToolReady(s) == s.tool # 0 \/ Known(s, 1)
XOk(s, c) ==
  CASE c.c \in {"m48"} -> s.st \in {"init", "header"}
    [] c.c = "hdr" -> s.st = "init"
    [] c.c = "pct" -> s.st \in {"header", "init"}
    [] c.c = "m95" -> s.st = "header"
    [] c.c = "unit" -> s.st = "header" /\ s.tools = <<>>
    [] c.c = "plated" -> s.st = "header"
    [] c.c = "tdef" -> s.st = "header"
    [] c.c = "hole" -> s.st = "header" /\ c.u # ""
    [] c.c = "tsel" -> s.st \notin {"init", "header"}
    [] c.c = "m00" -> s.st = "drill" /\ s.tool # 0 /\ Known(s, s.tool + 1)
    [] c.c \in {"m15", "m16", "m17", "g05"} -> s.st \notin {"init", "header"}
    [] c.c = "g00" -> s.st \notin {"init", "header"} /\ AnyXY(c)
    [] c.c = "g01" -> s.st \notin {"init", "header"} /\ AnyXY(c) /\ (s.down => ToolReady(s))
    [] c.c = "xy" -> AnyXY(c) /\ s.st # "init" /\ (s.st \in {"drill", "header"} => ToolReady(s))
                     /\ ((s.st = "linear" /\ s.down) => ToolReady(s))
    [] c.c = "slot" -> s.st \in {"drill", "header"} /\ ToolReady(s) /\ (c.x # <<>> \/ c.y # <<>>)
                       /\ (c.x2 # <<>> \/ c.y2 # <<>>)
    [] c.c = "rep" -> s.st = "drill" /\ s.tool # 0 /\ c.n > 0 /\ AnyXY(c)
    [] OTHER -> TRUE

\* --- derived quantities ----------------------------------------------------
OfTool(hs, n) == SelectSeq(hs, LAMBDA h : h.t = n)
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
\* bounds in nm: g nanometres per grid unit
Bounds(f, g) ==
  LET R(h) == Get(f.tools, h.t).d \div 2
      xs(sgn) == UNION {{h.pts[k][1] * g + sgn * R(h) : k \in 1..Len(h.pts)} : h \in {f.hits[m] : m \in 1..Len(f.hits)}}
      ys(sgn) == UNION {{h.pts[k][2] * g + sgn * R(h) : k \in 1..Len(h.pts)} : h \in {f.hits[m] : m \in 1..Len(f.hits)}}
  IN IF f.hits = <<>> THEN <<>> ELSE <<MinOf(xs(-1)), MaxOf(xs(1)), MinOf(ys(-1)), MaxOf(ys(1))>>
\* integer square root, rounded down
RECURSIVE Bit(_, _, _)
Bit(n, r, b) == IF b = 0 THEN r ELSE IF (r + b) * (r + b) <= n THEN Bit(n, r + b, b \div 2) ELSE Bit(n, r, b \div 2)
ISqrt(n) == Bit(n, 0, 16384)
\* length of the path of a tool in hundredths of a grid unit, rounded down per leg;
\* <<length, number of legs>>; the path starts at the origin
RECURSIVE Path(_, _, _, _)
Path(pts, p, len, n) ==
  IF pts = <<>> THEN <<len, n>>
  ELSE LET q == Head(pts)
           dx == q[1] - p[1]
           dy == q[2] - p[2]
       IN Path(Tail(pts), q, len + ISqrt((dx * dx + dy * dy) * 10000), n + 1)
RECURSIVE Flat(_)
Flat(hs) == IF hs = <<>> THEN <<>> ELSE Head(hs).pts \o Flat(Tail(hs))
PathOf(f, n) == Path(Flat(OfTool(f.hits, n)), <<0, 0>>, 0, 0)

\* --- operations on a file that was read -------------------------------------
XShift(f, v) == [f EXCEPT !.hits = [k \in 1..Len(@) |->
                   [@[k] EXCEPT !.pts = [m \in 1..Len(@) |-> <<@[m][1] + v[1], @[m][2] + v[2]>>]]]]
XConvert(f, u) == [f EXCEPT !.u = u]      \* positions and sizes are physical
\* the holes in another order, made anew by the user
XArranged(f, how) == [f EXCEPT !.hits = CASE how = "reverse" -> [k \in 1..Len(@) |-> @[Len(@) + 1 - k]]
                                         [] how = "rotate"  -> IF @ = <<>> THEN @ ELSE Append(Tail(@), Head(@))
                                         [] OTHER           -> @]
\* d = 0: only other parameters change
XUpdate(f, n, d) == IF d = 0 THEN f ELSE [f EXCEPT !.tools[At(f.tools, n)].d = d]
\* what a file that was written and read again has: the hits grouped by tool
RECURSIVE Group(_, _)
Group(f, k) == IF k > Len(f.tools) THEN <<>> ELSE OfTool(f.hits, f.tools[k].n) \o Group(f, k + 1)
XWritten(f) == [f EXCEPT !.inc = FALSE, !.hits = Group(f, 1),
                 !.tools = [k \in 1..Len(@) |-> [@[k] EXCEPT !.h = Len(OfTool(f.hits, f.tools[k].n))]]]
\* what the generated file has: only the tools in use, in order of first use
RECURSIVE Uses(_, _)
Uses(hs, seen) ==
  IF hs = <<>> THEN <<>>
  ELSE IF Head(hs).t \in seen THEN Uses(Tail(hs), seen)
  ELSE <<Head(hs).t>> \o Uses(Tail(hs), seen \cup {Head(hs).t})
XGenerated(f) == LET us == Uses(f.hits, {})
                 IN [f EXCEPT !.inc = FALSE, !.tools = [k \in 1..Len(us) |->
                       [Get(f.tools, us[k]) EXCEPT !.h = Len(OfTool(f.hits, us[k])), !.p = ""]]]
RECURSIVE XRun(_, _)
XRun(s, cs) == IF cs = <<>> THEN s ELSE XRun(XStep(s, Head(cs)), Tail(cs))
=============================================================================
