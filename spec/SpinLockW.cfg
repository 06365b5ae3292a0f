SPECIFICATION Spec
CONSTANTS N = 3
 PREF = "W"
INVARIANTS Exclusion Counts Order CanGo
CHECK_DEADLOCK FALSE
