SPECIFICATION Spec
CONSTANTS Modes = {"object", "rs274x", "excellon", "ipc_d_356", "none", "param"}
 Depth = 3
 HDepth = 4
 Emit = TRUE
 Thin = 12
INVARIANTS OneZeroSetting TypeIsKind Extensional LastCounts EmitIt
