------------------------------- MODULE IpcGen -------------------------------
(* Random netlist files (tlc -simulate). *)
EXTENDS Ipc, TLC, Json, Randomization
CONSTANT Depth
VARIABLES s, hist, done
vars == <<s, hist, done>>
Pick(S) == RandomElement(IF Len(hist) > 1000 THEN {} ELSE S)
Maybe(S) == IF Pick(1..3) = 1 THEN <<>> ELSE <<Pick(S)>>
Nets == {"GND", "VCC", "N$3", "+5VDC", "SIG-1", "NNAME1", "NNAME2", "NNAME15", "", "A_14_CHAR_NAME", "N/C"}
Ids == {"VIA", "C1", "R100", "U12", "IC1234", "COMMUNICATION", "CONNECTOR7", "J1", "TP-1"}
Co == {0, 1, -1, 25, -1450, 14900, 99999, -99999, 123456, 650}
RECURSIVE SeqOf(_, _)
SeqOf(n, S) == IF n = 0 THEN <<>> ELSE <<Pick(S)>> \o SeqOf(n - 1, S)
RECURSIVE Points(_, _)
Points(n, first) == IF n = 0 THEN <<>>
  ELSE << IF first \/ Pick(1..2) = 1 THEN << <<Pick(Co)>>, <<Pick(Co)>> >> ELSE IF Pick(1..2) = 1 THEN << <<Pick(Co)>>, <<>> >> ELSE << <<>>, <<Pick(Co)>> >> >>
       \o Points(n - 1, FALSE)
RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN <<>> ELSE <<Points(Pick(2..3), TRUE)>> \o Shapes(n - 1)
Named == Nets \ {""}
Line(r) ==
  CASE r <= 50 -> [c |-> "test", code |-> Pick({"317", "327", "367"}), net |-> Pick(Nets), id |-> Pick(Ids), pin |-> Pick({"", "1", "12", "A1", "M2", "1234", "+"}),
                   mid |-> Pick(BOOLEAN), dia |-> Maybe({1, 24, 150, 9999}), pl |-> Pick({"", "P", "U"}), acc |-> Pick(0..8),
                   x |-> Pick(Co), y |-> Pick(Co), w |-> Maybe({0, 9, 236, 1575}), h |-> Maybe({0, 60, 315, 4000}),
                   rot |-> Maybe(IF s.ang = "radians" THEN {0, 1, 3} ELSE {0, 5, 90, 180, 270}), sm |-> Pick({"", "0", "1", "2", "3"}), opt |-> Pick({"", "", "7", "AB", "12345"})]
    [] r <= 56 -> [c |-> "par", p |-> "UNITS", v |-> Pick({"CUST 0", "CUST 1", "CUST 2", "CUST"}), alias |-> FALSE]
    [] r <= 60 -> [c |-> "par", p |-> Pick({"JOB", "VER", "DIM", "TITLE"}), v |-> Pick({"", "N", "IPC-D-356A", "two words", "NNAME1 X"}), alias |-> FALSE]
    [] r <= 66 -> [c |-> "par", p |-> Pick({"NNAME1", "NNAME2", "NNAME15"}), v |-> Pick({"A_REALLY_LONG_NET_NAME", "OTHER", "GND"}), alias |-> TRUE]
    [] r <= 70 -> [c |-> "com", t |-> Pick({"", "comment", "317 is not a record", "P  UNITS CUST 1"})]
    [] r <= 72 -> [c |-> "blank"]
    [] r <= 73 -> [c |-> "eof"]
    [] r <= 80 -> [c |-> "out", t |-> Pick({"BOARD_EDGE", "PANEL_EDGE", "SCORE_LINE", "OTHER_FAB"}), pts |-> Points(Pick(2..9), TRUE)]
    [] r <= 84 -> [c |-> "cond", net |-> Pick(Named), layer |-> Pick({1, 2, 8, 12}), ap |-> <<<<Pick({1, 100, 2500})>>, Maybe({5, 300})>>, pts |-> Shapes(Pick(1..3))]
    [] r <= 92 -> [c |-> "adj", net |-> Pick(Named), nets |-> SeqOf(Pick(1..4), Named)]
    [] OTHER   -> [c |-> "cont", nets |-> SeqOf(Pick(1..9), Named), pts |-> Points(Pick(1..8), FALSE)]
Init == s = IInit /\ hist = <<>> /\ done = FALSE
Next == \/ /\ Len(hist) < Depth /\ UNCHANGED done
           /\ \E k \in 1..4 : \E r \in {Pick(1..100)} : \E l \in {Line(r)} : IOk(s, l) /\ s' = IStep(s, l) /\ hist' = Append(hist, l)
        \/ /\ ~done /\ Len(hist) >= Depth /\ PrintT("P " \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<s, hist>>
Spec == Init /\ [][Next]_vars
=============================================================================
