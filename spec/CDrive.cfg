SPECIFICATION Spec
INVARIANTS Reported NoStray Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
