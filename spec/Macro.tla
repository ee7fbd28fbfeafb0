-------------------------------- MODULE Macro --------------------------------
(***************************************************************************)
(* Aperture macros.  Expressions are token sequences; a macro is a sequence *)
(* of blocks; a program defines macros, apertures from macros with actual   *)
(* parameters, and flashes them.  Values are exact rationals <<num, den>>   *)
(* in lowest terms with den > 0; <<>> stands for "not a value" (division by *)
(* zero, or too large to compute with here).                                *)
(*                                                                          *)
(* Tokens   [t|->"n", a, b]  the number a/b;  [t|->"v", a, b|->1]  $a;      *)
(*          [t|->"+"|"-"|"x"|"/"|"("|")", a|->0, b|->0]                     *)
(* Blocks   [b|->"set", n, e]        $n = e                                 *)
(*          [b|->"prim", code, m]    primitive with modifier expressions m  *)
(*          [b|->"com"]              comment (primitive 0)                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

\* ---------------------------------------------------------- rationals -----
AbsI(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Limit == 30000
Rat(n, d) ==
  IF d = 0 THEN <<>>
  ELSE LET g == Gcd(AbsI(n), AbsI(d))
           s == IF d < 0 THEN -1 ELSE 1
           nn == s * (n \div g)
           dd == s * (d \div g)
       IN IF AbsI(nn) >= Limit \/ dd >= Limit THEN <<>> ELSE <<nn, dd>>
RAdd(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Rat(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RSub(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Rat(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
RMul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Rat(x[1] * y[1], x[2] * y[2])
RDiv(x, y) == IF x = <<>> \/ y = <<>> THEN <<>> ELSE Rat(x[1] * y[2], x[2] * y[1])
RNeg(x)    == IF x = <<>> THEN <<>> ELSE <<-x[1], x[2]>>
Zero == <<0, 1>>
One  == <<1, 1>>

\* ------------------------------------------------- environment ($1, ...) ---
\* a sequence of <<n, value>>, the latest assignment last; undefined is 0
Get(env, n) ==
  LET ks == {k \in 1..Len(env) : env[k][1] = n}
  IN  IF ks = {} THEN Zero ELSE env[CHOOSE k \in ks : \A m \in ks : m <= k][2]
Put(env, n, v) == Append(env, <<n, v>>)
Actual(params) == [k \in 1..Len(params) |-> <<k, params[k]>>]

\* ------------------------------ meaning: the expression grammar -----------
\*   expr   ::= [sign] term { (+|-) term }     sign only here
\*   term   ::= factor { (x|/) factor }
\*   factor ::= number | $n | "(" expr ")"
\* parse functions return [v |-> value, i |-> next position], i = 0: syntax error
Bad == [v |-> <<>>, i |-> 0]
At(ts, i) == IF i > Len(ts) THEN "end" ELSE ts[i].t

RECURSIVE PExpr(_, _, _), PTerm(_, _, _), PFactor(_, _, _), PSum(_, _, _), PProd(_, _, _)
PFactor(ts, i, env) ==
  CASE At(ts, i) = "n" -> [v |-> Rat(ts[i].a, ts[i].b), i |-> i + 1]
    [] At(ts, i) = "v" -> [v |-> Get(env, ts[i].a), i |-> i + 1]
    [] At(ts, i) = "(" -> LET r == PExpr(ts, i + 1, env)
                          IN IF r.i # 0 /\ At(ts, r.i) = ")" THEN [r EXCEPT !.i = @ + 1] ELSE Bad
    [] OTHER -> Bad
PProd(ts, l, env) ==
  IF l.i = 0 \/ ~(At(ts, l.i) \in {"x", "/"}) THEN l
  ELSE LET r == PFactor(ts, l.i + 1, env)
       IN IF r.i = 0 THEN Bad
          ELSE PProd(ts, [v |-> IF At(ts, l.i) = "x" THEN RMul(l.v, r.v) ELSE RDiv(l.v, r.v), i |-> r.i], env)
PTerm(ts, i, env) == PProd(ts, PFactor(ts, i, env), env)
PSum(ts, l, env) ==
  IF l.i = 0 \/ ~(At(ts, l.i) \in {"+", "-"}) THEN l
  ELSE LET r == PTerm(ts, l.i + 1, env)
       IN IF r.i = 0 THEN Bad
          ELSE PSum(ts, [v |-> IF At(ts, l.i) = "+" THEN RAdd(l.v, r.v) ELSE RSub(l.v, r.v), i |-> r.i], env)
PExpr(ts, i, env) ==
  IF At(ts, i) \in {"+", "-"}
  THEN LET r == PTerm(ts, i + 1, env)
       IN IF r.i = 0 THEN Bad
          ELSE PSum(ts, [r EXCEPT !.v = IF At(ts, i) = "-" THEN RNeg(@) ELSE @], env)
  ELSE PSum(ts, PTerm(ts, i, env), env)
Syntax(ts) == PExpr(ts, 1, <<>>).i = Len(ts) + 1
Value(ts, env) == PExpr(ts, 1, env).v

\* --------------- mechanism: operator-precedence compiler and stack machine
\* Compile yields instructions [o |-> "push", v], [o |-> "load", n], [o |-> op]
Prec(t) == IF t \in {"+", "-"} THEN 1 ELSE IF t \in {"x", "/"} THEN 2 ELSE 0
Ins(o, v, n) == [o |-> o, v |-> v, n |-> n]
RECURSIVE PopWhile(_, _, _)
PopWhile(st, out, p) ==     \* pop operators of precedence >= p
  IF st # <<>> /\ Prec(Last(st)) >= p /\ Last(st) # "("
  THEN PopWhile(Front(st), Append(out, Ins(Last(st), Zero, 0)), p) ELSE [st |-> st, out |-> out]
RECURSIVE Comp(_, _, _, _, _)
Comp(ts, i, st, out, sign) ==
  IF i > Len(ts) THEN PopWhile(st, out, 0).out
  ELSE LET t == ts[i].t IN
    CASE t = "n" -> Comp(ts, i + 1, st, Append(out, Ins("push", Rat(ts[i].a, ts[i].b), 0)), FALSE)
      [] t = "v" -> Comp(ts, i + 1, st, Append(out, Ins("load", Zero, ts[i].a)), FALSE)
      [] t = "(" -> Comp(ts, i + 1, Append(st, "("), out, TRUE)
      [] t = ")" -> LET r == PopWhile(st, out, 1) IN Comp(ts, i + 1, Front(r.st), r.out, FALSE)
      [] OTHER   -> LET o2 == IF sign THEN Append(out, Ins("push", Zero, 0)) ELSE out
                        r  == PopWhile(st, o2, Prec(t))
                    IN Comp(ts, i + 1, Append(r.st, t), r.out, FALSE)
Compile(ts) == Comp(ts, 1, <<>>, <<>>, TRUE)
RECURSIVE Exec(_, _, _)
Exec(ins, env, s) ==
  IF ins = <<>> THEN s
  ELSE LET c == Head(ins)
           n == Len(s)
           bin(v) == Append(SubSeq(s, 1, n - 2), v)
       IN Exec(Tail(ins), env,
            CASE c.o = "push" -> Append(s, c.v)
              [] c.o = "load" -> Append(s, Get(env, c.n))
              [] c.o = "+" -> bin(RAdd(s[n - 1], s[n]))
              [] c.o = "-" -> bin(RSub(s[n - 1], s[n]))
              [] c.o = "x" -> bin(RMul(s[n - 1], s[n]))
              [] OTHER     -> bin(RDiv(s[n - 1], s[n])))

\* ------------------------------------------------------ macro machine -----
\* one block: m = [env, prims]; prims are [code, v] with evaluated modifiers
MStep(m, b) ==
  CASE b.b = "set"  -> [m EXCEPT !.env = Put(@, b.n, Value(b.e, m.env))]
    [] b.b = "prim" -> [m EXCEPT !.prims = Append(@, [code |-> b.code,
                            v |-> [k \in 1..Len(b.m) |-> Value(b.m[k], m.env)]])]
    [] OTHER -> m
RECURSIVE MRun(_, _)
MRun(m, bs) == IF bs = <<>> THEN m ELSE MRun(MStep(m, Head(bs)), Tail(bs))
Expand(blocks, params) == MRun([env |-> Actual(params), prims |-> <<>>], blocks).prims

\* ----------------------------------------------------- program machine ----
\* commands: AM [name, blocks], AD [d, name, params], FL [d, p]
PInit == [macros |-> <<>>, aps |-> <<>>, img |-> <<>>]
Find(tab, k, dflt) ==
  LET ks == {i \in 1..Len(tab) : tab[i][1] = k}
  IN  IF ks = {} THEN dflt ELSE tab[CHOOSE i \in ks : \A m \in ks : m <= i][2]
PStep(s, c) ==
  CASE c.c = "AM" -> [s EXCEPT !.macros = Append(@, <<c.name, c.blocks>>)]
    [] c.c = "AD" -> [s EXCEPT !.aps = Append(@, <<c.d, Expand(Find(s.macros, c.name, <<>>), c.params)>>)]
    [] c.c = "FL" -> [s EXCEPT !.img = Append(@, [p |-> c.p, prims |-> Find(s.aps, c.d, <<>>)])]
    [] OTHER -> s

\* ------------------------------------------------------------ geometry ----
\* on an integer grid of S per unit; angles are multiples of 15 degrees
S == 1000
Q(x) == (2 * x[1] * S + x[2]) \div (2 * x[2])       \* nearest grid point
CosTab == <<32768, 31651, 28378, 23170, 16384, 8481, 0, -8481, -16384, -23170, -28378, -31651>>   \* x 32768
Cos15(k) == LET m == k % 24 IN IF m < 12 THEN CosTab[m + 1] ELSE -CosTab[m - 11]
Sin15(k) == Cos15(k - 6)
MulDiv(a, c) == (a * c + 16384) \div 32768
Turn(p, k) == << MulDiv(p[1], Cos15(k)) - MulDiv(p[2], Sin15(k)),
                 MulDiv(p[1], Sin15(k)) + MulDiv(p[2], Cos15(k)) >>
Steps15(x) == x[1] \div (15 * x[2])                  \* angle value -> multiples of 15
AngleOK(x) == x # <<>> /\ x[1] % (15 * x[2]) = 0
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>

Triples == { <<1,0,1>>, <<-1,0,1>>, <<0,1,1>>, <<0,-1,1>> } \cup
           { <<sx * a, sy * b, 5>> : sx \in {-1, 1}, sy \in {-1, 1}, a \in {3, 4}, b \in {3, 4} }
RealTriples == {t \in Triples : t[1] * t[1] + t[2] * t[2] = t[3] * t[3]}
Dir(d) == {t \in RealTriples : d[1] * t[2] = d[2] * t[1] /\ d[1] * t[1] + d[2] * t[2] > 0}

Box(x0, y0, x1, y1) == << <<x0, y0>>, <<x1, y0>>, <<x1, y1>>, <<x0, y1>> >>
\* shape of an evaluated primitive: circle / polygon / contour (corner points,
\* up to starting corner and direction) / thermal
Pol(x) == IF x = One THEN "dark" ELSE "clear"
Shape(pr) ==
  LET v == pr.v
      q(k) == Q(v[k])
      rot(k) == IF k > Len(v) THEN 0 ELSE Steps15(v[k])
      contour(pts, r) == [k |-> "contour", pol |-> Pol(v[1]), pts |-> [n \in 1..Len(pts) |-> Turn(pts[n], r)],
                          z |-> <<>>]
  IN CASE pr.code = 1 -> [k |-> "circle", pol |-> Pol(v[1]), pts |-> <<Turn(<<q(3), q(4)>>, rot(5))>>, z |-> <<q(2)>>]
       [] pr.code \in {2, 20} ->
            LET s == <<q(3), q(4)>>
                e == <<q(5), q(6)>>
                t == CHOOSE t \in Dir(<<e[1] - s[1], e[2] - s[2]>>) : TRUE
                nx == -((t[2] * q(2)) \div (2 * t[3]))
                ny == (t[1] * q(2)) \div (2 * t[3])
            IN contour(<< <<s[1] + nx, s[2] + ny>>, <<s[1] - nx, s[2] - ny>>,
                          <<e[1] - nx, e[2] - ny>>, <<e[1] + nx, e[2] + ny>> >>, rot(7))
       [] pr.code = 4 ->
            LET n == v[2][1]
            IN contour([k \in 1..n |-> <<q(1 + 2 * k), q(2 + 2 * k)>>], rot(5 + 2 * n))
       [] pr.code = 5 -> [k |-> "polygon", pol |-> Pol(v[1]), pts |-> <<Turn(<<q(3), q(4)>>, rot(6))>>,
                          z |-> <<q(5), v[2][1], 15 * rot(6)>>]
       [] pr.code = 21 ->
            contour(Box(q(4) - (q(2) \div 2), q(5) - (q(3) \div 2), q(4) + (q(2) \div 2), q(5) + (q(3) \div 2)), rot(6))
       [] pr.code = 22 -> contour(Box(q(4), q(5), q(4) + q(2), q(5) + q(3)), rot(6))
       [] pr.code = 7 -> [k |-> "thermal", pol |-> "dark", pts |-> <<Turn(<<q(1), q(2)>>, rot(6))>>,
                          z |-> <<q(3), q(4), q(5), rot(6)>>]
       [] OTHER -> [k |-> "moire", pol |-> "dark", pts |-> <<>>, z |-> <<>>]

\* admissible modifiers (what the format allows and this grid can express)
Num(x, lo, hi) == x # <<>> /\ x[1] >= lo * x[2] /\ x[1] <= hi * x[2]
Coord(x) == Num(x, -20, 20)
\* (nothing so small that its corners cannot be told apart on the grid)
Size(x)  == x # <<>> /\ x[1] * 30 >= x[2] /\ Num(x, 0, 20)
Apart(a, b) == a = b \/ AbsI(a[1] - b[1]) >= 20 \/ AbsI(a[2] - b[2]) >= 20
Flag(x)  == x \in {Zero, One}
Whole(x, lo, hi) == x # <<>> /\ x[2] = 1 /\ x[1] >= lo /\ x[1] <= hi
Rot(x)   == AngleOK(x) /\ Num(x, -400, 400)
PrimOK(pr) ==
  LET v == pr.v
      n == Len(v)
  IN CASE pr.code = 1 -> n \in {4, 5} /\ Flag(v[1]) /\ Size(v[2]) /\ Coord(v[3]) /\ Coord(v[4]) /\ (n = 5 => Rot(v[5]))
       [] pr.code \in {2, 20} -> n = 7 /\ Flag(v[1]) /\ Size(v[2]) /\ (\A k \in 3..6 : Coord(v[k])) /\ Rot(v[7])
                                 /\ Dir(<<Q(v[5]) - Q(v[3]), Q(v[6]) - Q(v[4])>>) # {}
       [] pr.code = 4 -> /\ n >= 5 /\ Flag(v[1]) /\ Whole(v[2], 2, 12) /\ n = 5 + 2 * v[2][1]
                         /\ \A k \in 3..(n - 1) : Coord(v[k])
                         /\ v[3] = v[n - 2] /\ v[4] = v[n - 1] /\ Rot(v[n])
                         /\ \A k \in 1..v[2][1] : Apart(<<Q(v[1 + 2 * k]), Q(v[2 + 2 * k])>>, <<Q(v[3 + 2 * k]), Q(v[4 + 2 * k])>>)
       [] pr.code = 5 -> n = 6 /\ Flag(v[1]) /\ Whole(v[2], 3, 12) /\ Coord(v[3]) /\ Coord(v[4]) /\ Size(v[5]) /\ Rot(v[6])
       [] pr.code \in {21, 22} -> n = 6 /\ Flag(v[1]) /\ Size(v[2]) /\ Size(v[3]) /\ Coord(v[4]) /\ Coord(v[5]) /\ Rot(v[6])
       [] pr.code = 7 -> /\ n = 6 /\ Coord(v[1]) /\ Coord(v[2]) /\ (\A k \in 3..5 : Size(v[k])) /\ Rot(v[6])
                         /\ Q(v[3]) > Q(v[4]) + 50 /\ Q(v[4]) > 2 * Q(v[5])
       [] pr.code = 6 -> n = 9
       [] OTHER -> FALSE
=============================================================================
