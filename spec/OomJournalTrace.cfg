CONSTANTS
  VType <- TraceVType
  VRank <- TraceVRank
  WILD <- TraceWild
SPECIFICATION OJSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
