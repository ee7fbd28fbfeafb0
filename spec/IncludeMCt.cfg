SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Lim = 4
INVARIANTS Right Bounded
