SPECIFICATION Spec
CONSTANT Verdict <- TsVerdict
CHECK_DEADLOCK FALSE
