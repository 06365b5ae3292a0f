CONSTANTS LEN = 7  DAMAGE = ""
SPECIFICATION Spec
VIEW View
INVARIANTS Recoverable ActiveHasFile
ACTION_CONSTRAINT Out
CHECK_DEADLOCK FALSE
