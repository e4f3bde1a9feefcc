INIT Init
NEXT Next
INVARIANT InOrder
CHECK_DEADLOCK FALSE
