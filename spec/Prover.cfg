INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MostCount = 20000
  MostStretch = 4000
