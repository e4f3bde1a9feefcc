INIT Init
NEXT Next
CONSTANTS COLORS = 2
CELLS = 0
CHECK_DEADLOCK FALSE
