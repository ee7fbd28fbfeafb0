SPECIFICATION Spec
CONSTANTS MaxLayers = 4
 Emit = TRUE
INVARIANTS AsSpecified EachOnce SidesApart AllCopper AllSides NearIsLater DrillBetween OutlineLowest Tell
CHECK_DEADLOCK FALSE
