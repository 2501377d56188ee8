SPECIFICATION Spec
INVARIANTS Formed Readable
CHECK_DEADLOCK FALSE
