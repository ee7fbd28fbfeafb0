SPECIFICATION Spec
CONSTANTS Depth = 1
 Static = TRUE
 Emit = TRUE
 Thin = 1
INVARIANTS OnePerLine Symmetric AliasesGone UnitsOfRecord EmitIt
PROPERTIES OnlyGrows
