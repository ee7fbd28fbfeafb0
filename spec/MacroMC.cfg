SPECIFICATION Spec
CONSTANTS MaxLen = 7
INVARIANTS GrammarAccepts Agree
ACTION_CONSTRAINT EmitIt
