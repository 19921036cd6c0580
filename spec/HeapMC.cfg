SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT NoSlicesNoAliases
INVARIANT Tracked
INVARIANT Export
PROPERTY Frame
CHECK_DEADLOCK FALSE
