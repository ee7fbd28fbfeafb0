------------------------------- MODULE BoardGen -------------------------------
(* Random directories: files with dressed or conflicting names and contents  *)
(* of every kind (tlc -simulate).                                            *)
EXTENDS Board, Json
CONSTANT Depth
VARIABLES hist, done
vars == <<hist, done>>
Pick(S) == RandomElement(IF Len(hist) > 1000 THEN {} ELSE S)
Seqs(S) == {<<x>> : x \in S}
Fill == {"board", "main", "rev2", "a_b", "x", "3", "07", "12", "proj"}
Prefix == Pick({<<>>, <<Pick(Fill)>>, <<Pick(Fill)>>, <<Pick(Fill), Pick(Fill)>>})
Suffix == Pick({<<>>, <<>>, <<Pick({"v2", "07", "5", "x"})>>})
Plain == Pick({"gbr", "pho", "art", "txt", "drl", "gbx", ""})
Name(r) == CASE r <= 35 -> [toks |-> <<Pick({"board", "proj"})>>, ext |-> Pick(AllExts)]
             [] r <= 50 -> LET c == Pick(DOMAIN Exts) IN [toks |-> Prefix \o <<Pick(Fill)>>, ext |-> Pick(Exts[c])]
             [] r <= 60 -> [toks |-> Prefix \o <<Pick(Fill)>>, ext |-> Pick(Exts["internal"])]
             [] r <= 70 -> [toks |-> Prefix \o Pick(Names["internal"]) \o Suffix, ext |-> Plain]
             [] r <= 90 -> LET c == Pick({k \in DOMAIN Names : Names[k] # {}}) IN [toks |-> Prefix \o Pick(Names[c]) \o Suffix, ext |-> Plain]
             [] r <= 95 -> [toks |-> Prefix \o Pick(AllNames) \o Pick({<<>>, <<"x">>, <<"x", "y">>}), ext |-> Pick(AllExts)]
             [] OTHER -> [toks |-> <<Pick({"board", "proj"})>> \o Suffix, ext |-> Plain]
Kind(r) == CASE r <= 62 -> "gerber" [] r <= 72 -> "drill" [] r <= 77 -> "ipc"
             [] OTHER -> Pick({"junk", "empty", "binary", "badgerber", "baddrill", "badipc", "folder", "dot", "os"})
Init == hist = <<>> /\ done = FALSE
Next == \/ /\ Len(hist) < Depth /\ UNCHANGED done
           /\ \E k \in 1..3 : \E r \in {Pick(1..100)} : \E n \in {Name(r)} : \E q \in {Pick(1..100)} : \E kd \in {Kind(q)} : \E st \in {Pick({"lower", "lower", "upper", "cap"})} :
                /\ \A m \in 1..Len(hist) : hist[m].toks # n.toks \/ hist[m].ext # n.ext
                /\ (kd = "os" => \A m \in 1..Len(hist) : hist[m].kind # "os")
                /\ hist' = Append(hist, [toks |-> n.toks, ext |-> n.ext, style |-> st, kind |-> kd])
        \/ /\ ~done /\ (Len(hist) >= Depth \/ (Len(hist) > 0 /\ Pick(1..8) = 1)) /\ PrintT("P " \o ToJson([files |-> hist])) /\ done' = TRUE /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
=============================================================================
