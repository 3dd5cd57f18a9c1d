SPECIFICATION Spec
CONSTANT MaxMem = 4
INVARIANT LaidOut
CHECK_DEADLOCK FALSE
