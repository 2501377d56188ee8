SPECIFICATION Spec
CONSTANT Verdict <- ZoneVerdict
CHECK_DEADLOCK FALSE
