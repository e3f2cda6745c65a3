INIT Init
NEXT Next
INVARIANTS InOrder NoGap Collect
POSTCONDITION Write
CHECK_DEADLOCK FALSE
