SPECIFICATION Spec
INVARIANTS Expanded Nested Entered
PROPERTY Monotone
CHECK_DEADLOCK FALSE
