INIT Init
NEXT Next
INVARIANTS InOrder NoGap
CHECK_DEADLOCK FALSE
