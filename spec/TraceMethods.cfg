SPECIFICATION Spec
CONSTANT Verdict <- MethodVerdict
CHECK_DEADLOCK FALSE
