SPECIFICATION MSpec
INVARIANT LastPut
PROPERTY OneObject
CHECK_DEADLOCK FALSE
