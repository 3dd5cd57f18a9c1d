SPECIFICATION Spec
INVARIANT Balanced
PROPERTY OuterKept
CHECK_DEADLOCK FALSE
