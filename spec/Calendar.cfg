CONSTANTS LastYear = 400 LastTick = 400000
SPECIFICATION Spec
INVARIANTS DayOk TimeOk CycleOk
CHECK_DEADLOCK FALSE
