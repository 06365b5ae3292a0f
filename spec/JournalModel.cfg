CONSTANTS LEN = 13  DAMAGE = ""
SPECIFICATION Spec
VIEW View
INVARIANTS Recoverable ActiveHasFile
CHECK_DEADLOCK FALSE
