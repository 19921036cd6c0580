INIT Init
NEXT Next
CONSTANT Mode = "slots"
INVARIANT Inv
INVARIANT ResolutionInv
INVARIANT Export
PROPERTY RefusedUnchanged
CHECK_DEADLOCK FALSE
