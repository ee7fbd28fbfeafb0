SPECIFICATION Spec2
CONSTANTS Depth = 0
 Forget = {}
 Emit = TRUE
 Static = FALSE
 Thin = 4
 Pairs = TRUE
INVARIANTS CornersSpanBox CornersInBox Convex MovesAlong UnitsAside Symm Reflexive OneShift SameBox Chain EmitPair EmitHist
