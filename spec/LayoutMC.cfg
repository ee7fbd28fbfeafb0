SPECIFICATION Spec
CONSTANTS Depth = 4
 Thin = 60
 MaxNl = 1
INVARIANTS LayoutIrrelevant EmitIt
