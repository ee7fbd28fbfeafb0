SPECIFICATION Spec
CONSTANTS Depth = 4
 Forget = {}
 Emit = TRUE
 Static = FALSE
 Thin = 40
INVARIANTS MemoCurrent WellOrdered BareInside InnerInside OffsetMovesBox UnitsDoNotMatter ReverseSame ComplementFull EmitIt
