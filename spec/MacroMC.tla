------------------------------- MODULE MacroMC -------------------------------
(* Design: every token sequence of the expression grammar up to MaxLen, built*)
(* one token at a time, is compiled by the operator-precedence compiler and  *)
(* run on the stack machine; the result must be the grammar's value.  Every  *)
(* complete expression is emitted as a conformance case.                     *)
EXTENDS Macro, TLC, Json
CONSTANTS MaxLen
VARIABLES ts, depth, want, fresh
vars == <<ts, depth, want, fresh>>

T(t, a, b) == [t |-> t, a |-> a, b |-> b]
Operands == {T("n", 2, 1), T("n", 1, 2), T("v", 1, 1)}
Env == << <<1, <<3, 1>> >> >>

Init == ts = <<>> /\ depth = 0 /\ want = "operand" /\ fresh = TRUE
Next ==
  /\ Len(ts) < MaxLen
  /\ \/ want = "operand" /\ \E o \in Operands : ts' = Append(ts, o) /\ want' = "operator" /\ fresh' = FALSE /\ UNCHANGED depth
     \/ want = "operand" /\ ts' = Append(ts, T("(", 0, 0)) /\ depth' = depth + 1 /\ fresh' = TRUE /\ UNCHANGED want
     \/ want = "operand" /\ fresh /\ \E s \in {"+", "-"} : ts' = Append(ts, T(s, 0, 0)) /\ fresh' = FALSE /\ UNCHANGED <<depth, want>>
     \/ want = "operator" /\ \E s \in {"+", "-", "x", "/"} : ts' = Append(ts, T(s, 0, 0)) /\ want' = "operand" /\ fresh' = FALSE /\ UNCHANGED depth
     \/ want = "operator" /\ depth > 0 /\ ts' = Append(ts, T(")", 0, 0)) /\ depth' = depth - 1 /\ UNCHANGED <<want, fresh>>
Spec == Init /\ [][Next]_vars
Complete == want = "operator" /\ depth = 0
EmitIt == Complete' => PrintT("P " \o ToJson([e |-> ts', v |-> Value(ts', Env)]))

GrammarAccepts == Complete => Syntax(ts)
Agree == Complete => Exec(Compile(ts), Env, <<>>) = << Value(ts, Env) >>
=============================================================================
