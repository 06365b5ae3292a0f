SPECIFICATION Spec
CONSTANTS N = 3
 CELLS = 3
INVARIANTS Exclusion Fairness NoLostWake Cells
PROPERTY Ends
CHECK_DEADLOCK FALSE
