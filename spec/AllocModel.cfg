CONSTANTS N = 26  SIZES = {4, 5, 9}  MIN = 4  MAXLIVE = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Partition Listed LiveUsed NoTouch OneVictim Emptied
CHECK_DEADLOCK FALSE
