SPECIFICATION Spec
CONSTANT STEPS = 1200
INVARIANT Mirror
INVARIANT Finer
PROPERTY Ticks
CHECK_DEADLOCK FALSE
