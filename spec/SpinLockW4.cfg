SPECIFICATION Spec
CONSTANTS N = 4
 PREF = "W"
INVARIANTS Exclusion Counts Order CanGo
CHECK_DEADLOCK FALSE
