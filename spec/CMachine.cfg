SPECIFICATION Spec
INVARIANTS BytesOK FramesOK
PROPERTY Monotone
CHECK_DEADLOCK FALSE
