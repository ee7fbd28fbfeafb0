------------------------------ MODULE CodecTrace ------------------------------
(* Each trace is one call: kind "read" (str -> obs value), "write" (value    *)
(* with e extra decimals -> obs string), "dec" (explicit decimal point),     *)
(* "rw" (value read back by the implementation from its own string).         *)
EXTENDS Codec, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done
vars == <<tid, done>>

V(t, ok, clause, detail) ==
  PrintT("V " \o ToJson([tid |-> t, ok |-> ok, clause |-> clause, detail |-> detail]))

ReadOK(t) == Val(t.obs.neg, t.obs.v) = Val(t.neg, Read(t.str, t.fmt, t.zs))
WriteOK(t) == /\ Len(t.obs.str) >= 1 /\ Len(t.obs.str) <= Width(t.fmt)
              /\ \E r \in Rounded(t.v, t.e) :
                    Val(t.obs.neg, Read(t.obs.str, t.fmt, t.zs)) = Val(t.neg, r)
RwOK(t) == \E r \in Rounded(t.v, t.e) : Val(t.obs.neg, t.obs.v) = Val(t.neg, r)
DecOK(t) == Val(t.obs.neg, t.obs.v) = Val(t.neg, t.v)

Judge(t) ==
  LET r == Traces[t]
      c == r.kind \o "-" \o r.via \o "-" \o r.zs
  IN IF r.obs.err # "" THEN V(t, FALSE, c \o "-raised", [error |-> r.obs.err])
     ELSE LET ok == CASE r.kind = "read" -> ReadOK(r)
                      [] r.kind = "write" -> WriteOK(r)
                      [] r.kind = "rw" -> RwOK(r)
                      [] OTHER -> DecOK(r)
          IN IF ok THEN V(t, TRUE, "", [k |-> r.kind])
             ELSE V(t, FALSE, c, [expected |-> IF r.kind = "read" THEN Read(r.str, r.fmt, r.zs) ELSE r.v,
                                  observed |-> r.obs])
Init == tid \in 1..Len(Traces) /\ done = FALSE
Next == ~done /\ Judge(tid) /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
=============================================================================
