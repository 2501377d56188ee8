SPECIFICATION Spec
INVARIANTS Same Back Spring Near Known
CHECK_DEADLOCK FALSE
