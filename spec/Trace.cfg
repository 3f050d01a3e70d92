SPECIFICATION TraceSpec
CONSTANTS
  InitSt <- C_InitSt
  NextSt <- C_NextSt
  Violated <- C_Violated
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
