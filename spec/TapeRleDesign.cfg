INIT DesignInit
NEXT DesignNext
CONSTANTS COLORS = 3
CELLS = 3
INVARIANT Agree
CHECK_DEADLOCK FALSE
