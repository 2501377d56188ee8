SPECIFICATION Spec
CONSTANT Verdict <- VocVerdict
CHECK_DEADLOCK FALSE
