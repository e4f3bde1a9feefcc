INIT Init
NEXT BigNext
CHECK_DEADLOCK FALSE
