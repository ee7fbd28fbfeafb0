SPECIFICATION Spec
CONSTANTS
  Depth = 30
  Grid <- GridDef
INVARIANTS ToolsKnown CountsMatch
