SPECIFICATION Spec
CONSTANTS Depth = 3
 Forget <- ForgetOne
 Emit = FALSE
 Static = FALSE
 Thin = 1
INVARIANTS MemoCurrent
