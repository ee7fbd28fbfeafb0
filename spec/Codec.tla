-------------------------------- MODULE Codec --------------------------------
(* Coordinate numbers, digit by digit.  A format is <<i, d>> (integer and   *)
(* decimal digits), suppression is "leading" or "trailing" (which zeros are *)
(* left out).  A string of digits is a sequence over 0..9, most significant *)
(* first; the value of a coordinate is the sequence of exactly i+d digits   *)
(* together with its sign, i.e. an integer multiple of 10^-d.               *)
EXTENDS Integers, Sequences, SequencesExt

Width(fmt) == fmt[1] + fmt[2]
Zeros(n) == [k \in 1..n |-> 0]
IsZero(v) == \A k \in 1..Len(v) : v[k] = 0

\* --- reading: where the missing digits go --------------------------------
PadDigits(str, w, zs) ==
  IF Len(str) >= w THEN str
  ELSE IF zs = "leading" THEN Zeros(w - Len(str)) \o str
  ELSE str \o Zeros(w - Len(str))
Read(str, fmt, zs) == PadDigits(str, Width(fmt), zs)
\* value as <<negative, digits>>; zero has no sign
Val(neg, digits) == <<neg /\ ~IsZero(digits), digits>>

\* --- writing: any string that reads back as the value; this is the
\* --- canonical one
RECURSIVE StripL(_), StripT(_)
StripL(s) == IF Len(s) > 1 /\ s[1] = 0 THEN StripL(Tail(s)) ELSE s
StripT(s) == IF Len(s) > 1 /\ s[Len(s)] = 0 THEN StripT(SubSeq(s, 1, Len(s) - 1)) ELSE s
Write(v, zs) == IF IsZero(v) THEN <<0>> ELSE IF zs = "leading" THEN StripL(v) ELSE StripT(v)

\* --- rounding a value with e more decimals to the resolution --------------
RECURSIVE Inc(_)
Inc(s) == IF s = <<>> THEN <<>>
          ELSE IF s[Len(s)] = 9 THEN Inc(SubSeq(s, 1, Len(s) - 1)) \o <<0>>
          ELSE [s EXCEPT ![Len(s)] = @ + 1]
\* the admissible results: nearest, both at a tie
Rounded(s, e) ==
  LET m == Len(s) - e
      head == SubSeq(s, 1, m)
      tail == SubSeq(s, m + 1, Len(s))
  IN IF e = 0 THEN {s}
     ELSE IF tail[1] < 5 THEN {head}
     ELSE IF tail[1] > 5 \/ ~IsZero(Tail(tail)) THEN {Inc(head)}
     ELSE {head, Inc(head)}
=============================================================================
