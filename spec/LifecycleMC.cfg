SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT FittedIffLearnt
INVARIANT Knows
INVARIANT SavedAreFitted
INVARIANT OwnData
INVARIANT Export
PROPERTY DiskStable
CHECK_DEADLOCK FALSE
