SPECIFICATION Spec
INVARIANTS Own Clean
PROPERTY Ends
CHECK_DEADLOCK FALSE
