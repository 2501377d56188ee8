SPECIFICATION Spec
CONSTANT Verdict <- SkVerdict
CHECK_DEADLOCK FALSE
