INIT Init
NEXT Next
CONSTANT Slots_ = FALSE
INVARIANT ViewInv
INVARIANT IterInv
INVARIANT Export
CHECK_DEADLOCK FALSE
