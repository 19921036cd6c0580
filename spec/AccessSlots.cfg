INIT Init
NEXT Next
CONSTANT Slots_ = TRUE
INVARIANT ViewInv
INVARIANT IterInv
INVARIANT Export
CHECK_DEADLOCK FALSE
