SPECIFICATION Spec
CONSTANT Verdict <- RelVerdict
CHECK_DEADLOCK FALSE
