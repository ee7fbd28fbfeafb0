SPECIFICATION Spec
CONSTANTS Mode = "stack"
 Depth = 5
 Emit = TRUE
 Thin = 60
INVARIANTS StackSorted OneLayerEach Confluent Between ViewsDisjoint EmitIt
