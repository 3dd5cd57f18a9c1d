SPECIFICATION Spec
INVARIANTS ReadBack WordsLeft
CHECK_DEADLOCK FALSE
