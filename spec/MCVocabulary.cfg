SPECIFICATION Spec
INVARIANTS Formed OneMeaning Direction
CHECK_DEADLOCK FALSE
