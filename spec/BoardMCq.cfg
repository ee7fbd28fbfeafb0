SPECIFICATION Spec
CONSTANTS Mode = "stack"
 Depth = 3
 Emit = TRUE
 Thin = 2
INVARIANTS StackSorted OneLayerEach Confluent Between ViewsDisjoint EmitIt
