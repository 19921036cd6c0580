INIT Init
NEXT Next
INVARIANT Holds
INVARIANT Export
PROPERTY Kept
CHECK_DEADLOCK FALSE
