SPECIFICATION Spec
CONSTANTS Depth = 4
 Static = FALSE
 Emit = TRUE
 Thin = 20
INVARIANTS OnePerLine Symmetric AliasesGone UnitsOfRecord EmitIt
PROPERTIES OnlyGrows
