SPECIFICATION Spec
CONSTANTS N = 4
 CELLS = 4
INVARIANTS Exclusion Fairness NoLostWake Cells
CHECK_DEADLOCK FALSE
