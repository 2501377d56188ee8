SPECIFICATION Spec
CONSTANT Verdict <- LayVerdict
CHECK_DEADLOCK FALSE
