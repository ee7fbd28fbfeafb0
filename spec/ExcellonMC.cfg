SPECIFICATION Spec
CONSTANTS
  Coords = {0, 3}
  MaxHits = 1
  MaxPos = 3
  Rich = TRUE
  Emit = TRUE
  Thin = 20
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitIt
INVARIANTS TypeOK ToolsKnown CountsMatch OneRecordPerTool WriteKeeps
PROPERTIES OnlyGrows DrawsOnlyDown PositionFollows Incremental
