INIT Init
NEXT WrittenNext
CHECK_DEADLOCK FALSE
