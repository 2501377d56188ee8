SPECIFICATION Spec
CONSTANT Verdict <- SearchVerdict
CHECK_DEADLOCK FALSE
