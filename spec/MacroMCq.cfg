SPECIFICATION Spec
CONSTANTS MaxLen = 6
INVARIANTS GrammarAccepts Agree
ACTION_CONSTRAINT EmitIt
