CONSTANTS
  VType <- TraceVType
  VRank <- TraceVRank
  WILD <- TraceWild
SPECIFICATION XSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
