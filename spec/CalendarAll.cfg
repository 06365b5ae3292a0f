CONSTANTS LastYear = 2400 LastTick = 8640000
SPECIFICATION Spec
INVARIANTS DayOk TimeOk CycleOk
CHECK_DEADLOCK FALSE
