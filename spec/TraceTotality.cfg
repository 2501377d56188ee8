SPECIFICATION Spec
CONSTANT Verdict <- TotalVerdict
CHECK_DEADLOCK FALSE
