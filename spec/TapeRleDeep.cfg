INIT DesignInit
NEXT DesignNext
CONSTANTS COLORS = 3
CELLS = 4
INVARIANT Agree
CHECK_DEADLOCK FALSE
