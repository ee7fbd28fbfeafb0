SPECIFICATION Spec
CONSTANTS Mode = "names"
 Depth = 0
 Emit = TRUE
 Thin = 1
INVARIANTS Unambiguous Known EmitIt
