SPECIFICATION Spec
CONSTANT Depth = 30
