SPECIFICATION Spec
CONSTANTS Depth = 0
 Forget = {}
 Emit = TRUE
 Static = TRUE
 Thin = 1
INVARIANTS MemoCurrent WellOrdered BareInside InnerInside OffsetMovesBox UnitsDoNotMatter ReverseSame ComplementFull EmitIt
