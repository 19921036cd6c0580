INIT Init
NEXT Next
INVARIANT Laws
INVARIANT Export
PROPERTY Stable
CHECK_DEADLOCK FALSE
