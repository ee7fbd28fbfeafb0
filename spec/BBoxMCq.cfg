SPECIFICATION Spec
CONSTANTS Depth = 3
 Forget = {}
 Emit = TRUE
 Static = FALSE
 Thin = 12
INVARIANTS MemoCurrent WellOrdered BareInside InnerInside OffsetMovesBox UnitsDoNotMatter ReverseSame ComplementFull EmitIt
