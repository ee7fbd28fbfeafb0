SPECIFICATION Spec
CONSTANTS MaxMacros = 3
MaxBlocks = 6
