------------------------------- MODULE MacroGen -------------------------------
(* Random macro programs (TLC -simulate): macros are built block by block     *)
(* with expressions over numbers, variables and parentheses; a block is taken *)
(* only if it is admissible for the actual parameters in hand.                *)
EXTENDS Macro, TLC, Json
CONSTANTS MaxMacros, MaxBlocks
VARIABLES prog, blocks, params, nm, done
vars == <<prog, blocks, params, nm, done>>

Pick(X) == RandomElement(X)
The(X) == CHOOSE x \in X : TRUE
Tok(t, a, b) == [t |-> t, a |-> a, b |-> b]
Nums == { <<0,1>>, <<1,1>>, <<2,1>>, <<3,1>>, <<4,1>>, <<10,1>>, <<1,2>>, <<1,4>>, <<3,2>>, <<5,4>>, <<1,10>>, <<3,20>>, <<7,1>>, <<21,10>> }
N1(v) == Tok("n", v[1], v[2])
NumToks == {N1(v) : v \in Nums}
Num0(z) == Pick(NumToks)
\* mostly the first variables; numbers of two digits as well
VarNo(k) == IF k <= 9 THEN Pick(1..6) ELSE Pick({9, 10, 11, 12, 30, 47})
Var0(z) == Tok("v", VarNo(The({Pick(1..12)})), 1)
Leaf(z) == IF Pick(1..3) = 1 THEN Var0(0) ELSE Num0(0)
Op0(z) == Tok(Pick({"+", "-", "x", "/"}), 0, 0)
Sg0(z) == Tok(Pick({"+", "-", "-"}), 0, 0)
LP0(z) == Tok("(", 0, 0)
RP0(z) == Tok(")", 0, 0)
Expr(k) ==
  CASE k <= 5  -> << Num0(0) >>
    [] k <= 8  -> << Leaf(0) >>
    [] k <= 10 -> << Sg0(0), Leaf(0) >>
    [] k <= 13 -> << Leaf(0), Op0(0), Leaf(0) >>
    [] k = 14  -> << Leaf(0), Op0(0), Leaf(0), Op0(0), Leaf(0) >>
    [] k = 15  -> << LP0(0), Leaf(0), Op0(0), Leaf(0), RP0(0), Op0(0), Leaf(0) >>
    [] k = 16  -> << Leaf(0), Op0(0), LP0(0), Leaf(0), Op0(0), Leaf(0), RP0(0) >>
    [] k = 17  -> << Sg0(0), LP0(0), Leaf(0), Op0(0), Leaf(0), RP0(0), Op0(0), Leaf(0), Op0(0), Leaf(0) >>
    [] k = 18  -> << Leaf(0), Op0(0), LP0(0), Sg0(0), Leaf(0), RP0(0), Op0(0), Leaf(0) >>
    [] k = 19  -> << LP0(0), LP0(0), Leaf(0), Op0(0), Leaf(0), RP0(0), Op0(0), LP0(0), Leaf(0), Op0(0), Leaf(0), RP0(0), RP0(0) >>
    [] OTHER   -> << Leaf(0), Op0(0), Leaf(0), Op0(0), Leaf(0), Op0(0), Leaf(0) >>
E(z) == Expr(The({Pick(1..20)}))
Par(e) == IF Len(e) = 1 THEN e ELSE <<LP0(0)>> \o e \o <<RP0(0)>>
\* the integer n as an expression
IntE(n) == IF n < 0 THEN << Tok("-", 0, 0), N1(<<-n, 1>>) >> ELSE << N1(<<n, 1>>) >>
AddInt(e, n) == Par(e) \o << Tok(IF n < 0 THEN "-" ELSE "+", 0, 0), N1(<<AbsI(n), 1>>) >>
Flag0(z) == IF Pick(1..4) = 1 THEN <<N1(<<0,1>>)>> ELSE <<N1(<<1,1>>)>>
Angles == {IntE(15 * k) : k \in -9..24} \cup {<<N1(<<15, 1>>), Tok("x", 0, 0), N1(<<k, 1>>)>> : k \in 0..12}
          \cup {<<N1(<<90, 1>>), Tok(o, 0, 0), N1(<<15 * k, 1>>)>> : k \in 1..6, o \in {"+", "-"}}
Angle(z) == IF Pick(1..2) = 1 THEN IntE(0) ELSE Pick(Angles)
Count(n) == IF Pick(1..3) = 1 THEN <<N1(<<n - 1, 1>>), Tok("+", 0, 0), N1(<<1, 1>>)>> ELSE IntE(n)
Vec(z) == Pick({ <<1,0>>, <<-2,0>>, <<0,1>>, <<0,-3>>, <<3,4>>, <<-3,4>>, <<4,-3>>, <<-4,-3>> })

P(code, m) == [b |-> "prim", code |-> code, m |-> m, n |-> 0, e |-> <<>>]
RECURSIVE Pts(_)
Pts(n) == IF n = 0 THEN <<>> ELSE Append(Pts(n - 1), << E(0), E(0) >>)
Outline(n) == The({P(4, <<Flag0(0), Count(n)>> \o FlattenSeq(pts) \o pts[1] \o <<Angle(0)>>) :
                    pts \in {Pts(n)}})
VLine(code, w) == The({P(code, <<Flag0(0), w, x, y, AddInt(x, d[1]), AddInt(y, d[2]), Angle(0)>>) :
                       x \in {E(0)}, y \in {E(0)}, d \in {Vec(0)}})
Block(r) ==
  CASE r <= 3  -> [b |-> "set", n |-> VarNo(The({Pick(1..12)})), e |-> E(0), m |-> <<>>, code |-> 0]
    [] r = 4   -> [b |-> "com", n |-> Pick(1..4), e |-> <<>>, m |-> <<>>, code |-> 0]
    [] r <= 6  -> P(1, <<Flag0(0), E(0), E(0), E(0)>>)
    [] r = 7   -> P(1, <<Flag0(0), E(0), E(0), E(0), Angle(0)>>)
    [] r <= 9  -> VLine(Pick({2, 20}), E(0))
    [] r <= 11 -> Outline(3)
    [] r = 12  -> Outline(Pick(4..6))
    [] r <= 14 -> P(5, <<Flag0(0), The({Count(n) : n \in {Pick(3..12)}}), E(0), E(0), E(0), Angle(0)>>)
    [] r <= 16 -> P(21, <<Flag0(0), E(0), E(0), E(0), E(0), Angle(0)>>)
    [] r <= 18 -> P(22, <<Flag0(0), E(0), E(0), E(0), E(0), Angle(0)>>)
    [] r = 19  -> P(7, <<E(0), E(0), E(0), E(0), E(0), Angle(0)>>)
    [] OTHER   -> P(7, <<IntE(0), IntE(0), IntE(4), IntE(2), <<N1(<<1,2>>)>>, Angle(0)>>)

Env0 == [env |-> Actual(params), prims |-> <<>>]
BlockOK(b) ==
  LET m == MRun(Env0, blocks)
      m2 == MStep(m, b)
  IN CASE b.b = "set" -> Coord(Get(m2.env, b.n))
       [] b.b = "prim" -> (\A k \in 1..Len(Last(m2.prims).v) : Last(m2.prims).v[k] # <<>>) /\ PrimOK(Last(m2.prims))
       [] OTHER -> TRUE
AllOK(ps) == \A k \in 1..Len(ps) : (\A n \in 1..Len(ps[k].v) : ps[k].v[n] # <<>>) /\ PrimOK(ps[k])
SetsOK(pv) ==
  \A k \in 1..Len(blocks) : blocks[k].b = "set" =>
     Get(MRun([env |-> Actual(pv), prims |-> <<>>], SubSeq(blocks, 1, k)).env, blocks[k].n) # <<>>

ParamVals == { <<1,1>>, <<2,1>>, <<1,2>>, <<3,2>>, <<5,1>>, <<1,4>>, <<0,1>>, <<3,1>>, <<-1,1>> }
RECURSIVE Vals(_)
Vals(n) == IF n = 0 THEN <<>> ELSE Append(Vals(n - 1), Pick(ParamVals))
RandParams(z) == Vals(Pick({0, 1, 2, 3, 4, 12}))
Names == {"MAC1", "THERMAL80", "_x.1", "CUSTOM", "Rr1", "OBLONG+", "POLY-1", "C2", "$a", "Q"}
Pos(z) == <<100 * Pick(-30..30), 50 * Pick(-20..20)>>
HasPrim == \E k \in 1..Len(blocks) : blocks[k].b = "prim"

Init == prog = <<>> /\ blocks = <<>> /\ nm = 0 /\ done = FALSE /\ params = << <<99, 1>> >>
Start == /\ params = << <<99, 1>> >> /\ \E p \in {RandParams(0)} : params' = p
         /\ UNCHANGED <<prog, blocks, nm, done>>
\* the last circle once more, one unit to the side
Again(z) == IF blocks # <<>> /\ Last(blocks).b = "prim" /\ Last(blocks).code = 1
            THEN [Last(blocks) EXCEPT !.m[3] = AddInt(@, Pick({1, -1}))] ELSE P(1, <<Flag0(0), E(0), E(0), E(0)>>)
AddBlock == /\ ~done /\ nm < MaxMacros /\ Len(blocks) < MaxBlocks
            /\ \E k \in 1..12 : \E b \in {IF Pick(1..14) = 1 THEN Again(0) ELSE Block(Pick(1..20))} : BlockOK(b) /\ blocks' = Append(blocks, b)
            /\ UNCHANGED <<prog, params, nm, done>>
Close == /\ ~done /\ nm < MaxMacros /\ HasPrim /\ Len(blocks) >= Pick(1..MaxBlocks)
         /\ \E name \in {Pick(Names)} : \E p2 \in {RandParams(0)} : \E p3 \in {RandParams(0)} : \E q \in {<<Pos(0), Pos(0), Pos(0), Pos(0)>>} : \E late \in {Pick(BOOLEAN)} :
              LET d == 10 + 10 * nm
                  am == [c |-> "AM", name |-> name, blocks |-> blocks]
                  ad(k, pv) == [c |-> "AD", d |-> d + k, name |-> name, params |-> pv]
                  fl(k) == [c |-> "FL", d |-> d + k, p |-> q[k + 1]]
                  ok(pv) == SetsOK(pv) /\ AllOK(Expand(blocks, pv))
                  extra(k, pv) == IF ok(pv) THEN <<ad(k, pv)>> ELSE <<>>
                  fls == <<fl(0)>> \o (IF ok(p2) THEN <<fl(1)>> ELSE <<>>) \o (IF ok(p3) THEN <<fl(2), fl(0)>> ELSE <<>>)
                  old == IF late /\ nm > 0 THEN << [c |-> "FL", d |-> 10, p |-> q[4]] >> ELSE <<>>
              IN prog' = prog \o <<am, ad(0, params)>> \o extra(1, p2) \o extra(2, p3) \o fls \o old
         /\ blocks' = <<>> /\ nm' = nm + 1 /\ UNCHANGED done
         /\ \E p \in {RandParams(0)} : params' = p
Finish == /\ ~done /\ nm = MaxMacros /\ PrintT("P " \o ToJson(prog)) /\ done' = TRUE /\ UNCHANGED <<prog, blocks, params, nm>>
Next == IF params = << <<99, 1>> >> THEN Start ELSE AddBlock \/ Close \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
