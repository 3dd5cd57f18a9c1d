SPECIFICATION Spec
CONSTANT MaxMem = 3
INVARIANT LaidOut
CHECK_DEADLOCK FALSE
