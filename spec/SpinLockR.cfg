SPECIFICATION Spec
CONSTANTS N = 4
 PREF = "R"
INVARIANTS Exclusion Counts Order CanGo
CHECK_DEADLOCK FALSE
