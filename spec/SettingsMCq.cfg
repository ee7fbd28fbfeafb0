SPECIFICATION Spec
CONSTANTS Modes = {"object", "rs274x", "excellon", "ipc_d_356", "none", "param"}
 Depth = 2
 HDepth = 3
 Emit = TRUE
 Thin = 3
INVARIANTS OneZeroSetting TypeIsKind Extensional LastCounts EmitIt
