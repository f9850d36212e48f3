INIT Init
NEXT Next
CONSTANTS
  MIX = "C13"
  STEPS = 12
INVARIANTS OneDefPerId LengthOk AlgInForce
CHECK_DEADLOCK FALSE
