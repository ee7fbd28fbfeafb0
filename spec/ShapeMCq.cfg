SPECIFICATION Spec2
CONSTANTS Depth = 3
 Forget = {}
 Emit = TRUE
 Static = FALSE
 Thin = 12
 Pairs = FALSE
INVARIANTS CornersSpanBox CornersInBox Convex MovesAlong UnitsAside Symm Reflexive OneShift SameBox Chain EmitPair EmitHist
