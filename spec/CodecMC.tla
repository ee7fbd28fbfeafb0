------------------------------- MODULE CodecMC -------------------------------
(* Design: for every format up to MaxI:MaxD every digit string is explored  *)
(* (exhaustively) and Read inverts Write.  Class enumeration: for every     *)
(* format up to 6:7, suppression, sign and position of the first and last   *)
(* non-zero digit, one representative is emitted as a conformance case.     *)
EXTENDS Codec, TLC, Json
CONSTANTS MaxI, MaxD, FullI, FullD, Emit
VARIABLES fmt, zs, neg, v, ph
vars == <<fmt, zs, neg, v, ph>>

Fill(w, a, b, z) == [k \in 1..w |-> IF k < a \/ k > b THEN 0
                      ELSE IF k = a \/ k = b THEN 1 + ((k * 3 + a + w) % 9)
                      ELSE IF z = 1 THEN 0 ELSE (k * 7 + b) % 10]
Init == /\ fmt \in (1..6) \X (1..7) /\ zs \in {"leading", "trailing"} /\ neg \in BOOLEAN
        /\ v = <<>> /\ ph = "start"
Small == fmt[1] <= MaxI /\ fmt[2] <= MaxD
Next ==
  /\ ph = "start"
  /\ UNCHANGED <<fmt, zs, neg>>
  /\ \/ Small /\ v' \in [1..Width(fmt) -> 0..9] /\ ph' = "value"
     \/ \E a \in 1..Width(fmt), z \in {0, 1} : \E b \in a..Width(fmt) : v' = Fill(Width(fmt), a, b, z) /\ ph' = "class"
     \/ v' = Zeros(Width(fmt)) /\ ph' = "class"
Spec == Init /\ [][Next]_vars
EmitIt == (Emit /\ ph' = "class") => PrintT("P " \o ToJson([fmt |-> fmt, zs |-> zs, neg |-> neg, v |-> v']))

RoundTrip == ph # "start" => Read(Write(v, zs), fmt, zs) = v
NonEmpty  == ph # "start" => Len(Write(v, zs)) >= 1 /\ Len(Write(v, zs)) <= Width(fmt)
\* full digits (nothing suppressed) mean the same under both conventions
Unsuppressed == ph # "start" => Read(v, fmt, "leading") = Read(v, fmt, "trailing")
RoundOK == (ph # "start" /\ fmt[2] > 1 /\ v[1] < 9) =>
             \A r \in Rounded(v, 1) : Len(r) = Len(v) - 1
=============================================================================
