SPECIFICATION Spec
CONSTANTS Depth = 5
 Static = FALSE
 Emit = TRUE
 Thin = 60
INVARIANTS OnePerLine Symmetric AliasesGone UnitsOfRecord EmitIt
PROPERTIES OnlyGrows
