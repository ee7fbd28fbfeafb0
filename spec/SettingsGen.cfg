SPECIFICATION Spec
CONSTANTS Modes = {"object", "rs274x", "excellon", "ipc_d_356", "none", "param"}
 Depth = 9
 HDepth = 9
 Emit = TRUE
 Thin = 4
INVARIANTS OneZeroSetting TypeIsKind Extensional LastCounts EmitIt
