INIT InitF
NEXT NextF
CHECK_DEADLOCK FALSE
