SPECIFICATION Spec
INVARIANT Typed
CHECK_DEADLOCK FALSE
