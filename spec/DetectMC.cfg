INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Export
CHECK_DEADLOCK FALSE
