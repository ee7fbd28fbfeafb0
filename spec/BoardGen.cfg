SPECIFICATION Spec
CONSTANT Depth = 9
