SPECIFICATION Spec2
CONSTANTS Depth = 0
 Forget = {}
 Emit = TRUE
 Static = TRUE
 Thin = 1
 Pairs = FALSE
INVARIANTS CornersSpanBox CornersInBox Convex MovesAlong UnitsAside Symm Reflexive OneShift SameBox Chain EmitPair EmitHist
