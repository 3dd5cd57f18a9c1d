SPECIFICATION LSpec
INVARIANTS LTyped
CHECK_DEADLOCK FALSE
