SPECIFICATION Spec
CONSTANT Verdict <- ValidVerdict
CHECK_DEADLOCK FALSE
