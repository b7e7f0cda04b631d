INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS OneKey NoWrapper NoSelf SameAsExplicit
