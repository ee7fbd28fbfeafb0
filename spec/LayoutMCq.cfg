SPECIFICATION Spec
CONSTANTS Depth = 3
 Thin = 8
 MaxNl = 1
INVARIANTS LayoutIrrelevant EmitIt
