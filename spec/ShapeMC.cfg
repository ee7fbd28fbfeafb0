SPECIFICATION Spec2
CONSTANTS Depth = 4
 Forget = {}
 Emit = TRUE
 Static = FALSE
 Thin = 30
 Pairs = FALSE
INVARIANTS CornersSpanBox CornersInBox Convex MovesAlong UnitsAside Symm Reflexive OneShift SameBox Chain EmitPair EmitHist
