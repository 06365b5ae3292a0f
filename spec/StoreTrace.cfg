CONSTANTS
  VType <- TraceVType
  VRank <- TraceVRank
  WILD <- TraceWild
SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
