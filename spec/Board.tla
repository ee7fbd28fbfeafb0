-------------------------------- MODULE Board --------------------------------
(* Board assembly: what class a file stands for, which files become layers,  *)
(* in which order the layers lie, and what the two views show.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* The documented extensions and names (names as words; the joints inside a name may be any character).
Exts == [ top |-> {"gtl", "cmp", "top"},
          bottom |-> {"gbl", "sld", "bot", "sol", "bottom"},
          internal |-> {"in", "gt1", "gt2", "gt3", "gt4", "gt5", "gt6", "g1", "g2", "g3", "g4", "g5", "g6"},
          topsilk |-> {"gto", "sst", "plc", "ts", "skt", "topsilk"},
          bottomsilk |-> {"gbo", "ssb", "pls", "bs", "skb", "bottomsilk"},
          topmask |-> {"gts", "stc", "tmk", "smt", "tr", "topmask"},
          bottommask |-> {"gbs", "sts", "bmk", "smb", "br", "bottommask"},
          toppaste |-> {"gtp", "tm", "toppaste"},
          bottompaste |-> {"gbp", "bm", "bottompaste"},
          outline |-> {"gko", "outline"},
          ipc_netlist |-> {"ipc"},
          drawing |-> {"fab"} ]
Names == [ top |-> {<<"art01">>, <<"top">>, <<"gtl">>, <<"layer1">>, <<"soldcom">>, <<"comp">>, <<"f", "cu">>},
           bottom |-> {<<"art02">>, <<"bottom">>, <<"bot">>, <<"gbl">>, <<"layer2">>, <<"soldsold">>, <<"b", "cu">>},
           internal |-> {<<"art">>, <<"internal">>, <<"pgp">>, <<"pwr">>, <<"gnd">>, <<"ground">>, <<"gp1">>, <<"gp2">>, <<"gp3">>, <<"gp4">>,
<<"gt5">>, <<"gp6">>, <<"in1", "cu">>, <<"in2", "cu">>, <<"in3", "cu">>, <<"in4", "cu">>, <<"group3">>, <<"group4">>, <<"group5">>, <<"group6">>,
<<"group7">>, <<"group8">>},
           topsilk |-> {<<"sst01">>, <<"topsilk">>, <<"silk">>, <<"slk">>, <<"sst">>, <<"f", "silks">>},
           bottomsilk |-> {<<"bsilk">>, <<"ssb">>, <<"botsilk">>, <<"bottomsilk">>, <<"b", "silks">>},
           topmask |-> {<<"sm01">>, <<"cmask">>, <<"tmask">>, <<"mask1">>, <<"maskcom">>, <<"topmask">>, <<"mst">>, <<"f", "mask">>},
           bottommask |-> {<<"sm">>, <<"bmask">>, <<"mask2">>, <<"masksold">>, <<"botmask">>, <<"bottommask">>, <<"msb">>, <<"b", "mask">>},
           toppaste |-> {<<"sp01">>, <<"toppaste">>, <<"pst">>, <<"f", "paste">>},
           bottompaste |-> {<<"sp02">>, <<"botpaste">>, <<"bottompaste">>, <<"psb">>, <<"b", "paste">>},
           outline |-> {<<"bdr">>, <<"border">>, <<"out">>, <<"outline">>, <<"edge", "cuts">>},
           ipc_netlist |-> {},
           drawing |-> {<<"assembly drawing">>, <<"assembly">>, <<"fabrication">>, <<"fab drawing">>, <<"fab">>} ]
BoardClasses == (DOMAIN Exts \ {"ipc_netlist"}) \cup {"drill"}
AllExts == UNION {Exts[c] : c \in DOMAIN Exts}
AllNames == UNION {Names[c] : c \in DOMAIN Names}
\* the layer number an extension or word states
Num == [ gt1 |-> 1, gt2 |-> 2, gt3 |-> 3, gt4 |-> 4, gt5 |-> 5, gt6 |-> 6, g1 |-> 1, g2 |-> 2, g3 |-> 3, g4 |-> 4, g5 |-> 5, g6 |-> 6,
         gp1 |-> 1, gp2 |-> 2, gp3 |-> 3, gp4 |-> 4, gp6 |-> 6, in1 |-> 1, in2 |-> 2, in3 |-> 3, in4 |-> 4,
         group3 |-> 3, group4 |-> 4, group5 |-> 5, group6 |-> 6, group7 |-> 7, group8 |-> 8 ]
Number == ("3" :> 3) @@ ("07" :> 7) @@ ("12" :> 12) @@ ("5" :> 5)

\* A file name is [toks, ext]: words joined by "." or "-" and an extension.
\* It carries a name if the name's words occur in it with at most one word behind them.
At(toks, n) == {i \in 1..(Len(toks) - Len(n) + 1) : SubSeq(toks, i, i + Len(n) - 1) = n /\ i + Len(n) - 1 >= Len(toks) - 1}
CarriedNames(f) == {n \in AllNames : At(f.toks, n) # {}}
ClassesOf(f) == {c \in DOMAIN Exts : f.ext \in Exts[c] \/ \E n \in Names[c] : At(f.toks, n) # {}}
\* Content beats the name for drill files and netlists.
Possible(f, kind) == CASE kind = "drill" -> {"drill"}
                       [] kind = "ipc"   -> {"ipc_netlist"}
                       [] ClassesOf(f) = {} -> {"unknown"}
                       [] OTHER -> ClassesOf(f)
\* The number of an internal layer: stated by the extension or by the internal name carried, else by
\* a word that is a number; 0 if the file name does not settle it.
Stated(f) == (IF f.ext \in Exts["internal"] \cap DOMAIN Num THEN {Num[f.ext]} ELSE {})
             \cup {Num[n[1]] : n \in {m \in CarriedNames(f) \cap Names["internal"] : m[1] \in DOMAIN Num}}
Words(f) == {Number[f.toks[k]] : k \in {k \in 1..Len(f.toks) : f.toks[k] \in DOMAIN Number}}
Vague == {"rev2", "v2", "layer1", "layer2", "art01", "art02", "mask1", "mask2", "sst01", "sm01", "sp01", "sp02"}   \* words with digits that are no layer number
NumberOf(f) == IF Cardinality(Stated(f)) = 1 THEN CHOOSE n \in Stated(f) : TRUE
               ELSE IF Stated(f) = {} /\ Cardinality(Words(f)) = 1 /\ (\A k \in 1..Len(f.toks) : f.toks[k] \notin Vague) THEN CHOOSE n \in Words(f) : TRUE
               ELSE 0

Readable == {"gerber", "drill", "ipc"}
Hidden == {"dot", "os"}          \* not looked at

\* --- stack -------------------------------------------------------------------
\* A layer is [cls, num, sides].
Stack == <<"outline", "toppaste", "topsilk", "topmask", "top", "internal", "bottom", "bottommask", "bottomsilk", "bottompaste">>
Tail2 == <<"drill", "drawing">>
Pos(c, s) == CHOOSE k \in 1..Len(s) : s[k] = c
InStack(l) == \E k \in 1..Len(Stack) : Stack[k] = l.cls
OnBoard(l) == l.cls \in BoardClasses
Rank(l, top) == IF InStack(l) THEN (IF top THEN 100 * Pos(l.cls, Stack) + l.num ELSE 2000 - 100 * Pos(l.cls, Stack) - l.num)
                ELSE 3000 + Pos(l.cls, Tail2)
TopOrder == <<"top", "topmask", "topsilk">>
BottomOrder == <<"bottom", "bottommask", "bottomsilk">>
InView(l, top) == IF l.cls = "drill" THEN (IF top THEN "top" ELSE "bottom") \in l.sides
                  ELSE \E k \in 1..3 : (IF top THEN TopOrder ELSE BottomOrder)[k] = l.cls
Copper(l) == l.cls \in {"top", "internal", "bottom"}

Count(s, P(_)) == Len(SelectSeq(s, P))
RECURSIVE InsertBy(_, _, _)
InsertBy(s, l, top) == IF s = <<>> THEN <<l>> ELSE IF Rank(l, top) < Rank(Head(s), top) THEN <<l>> \o s ELSE <<Head(s)>> \o InsertBy(Tail(s), l, top)
Sorted(s, top) == \A k \in 1..(Len(s) - 1) : Rank(s[k], top) <= Rank(s[k + 1], top)
Bag(s) == [l \in {s[k] : k \in 1..Len(s)} |-> Cardinality({k \in 1..Len(s) : s[k] = l})]
=============================================================================
