INIT Init
NEXT Next
VIEW View
INVARIANT Invariant
CHECK_DEADLOCK FALSE
