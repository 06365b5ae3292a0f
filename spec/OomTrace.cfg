CONSTANTS
  VType <- TraceVType
  VRank <- TraceVRank
  WILD <- TraceWild
SPECIFICATION OomSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
