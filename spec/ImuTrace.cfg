INIT InitI
NEXT NextI
CHECK_DEADLOCK FALSE
