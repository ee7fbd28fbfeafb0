SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Lim = 3
INVARIANTS Right Bounded
