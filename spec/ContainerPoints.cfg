INIT Init
NEXT Next
CONSTANT Mode = "points"
INVARIANT Inv
INVARIANT ResolutionInv
INVARIANT Export
PROPERTY RefusedUnchanged
CHECK_DEADLOCK FALSE
