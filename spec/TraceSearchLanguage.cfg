SPECIFICATION Spec
CONSTANT Verdict <- SeVerdict
CHECK_DEADLOCK FALSE
