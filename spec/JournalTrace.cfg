CONSTANTS
  VType <- TraceVType
  VRank <- TraceVRank
  WILD <- TraceWild
SPECIFICATION JSpec
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
