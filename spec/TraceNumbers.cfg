SPECIFICATION Spec
CONSTANT Verdict <- NumVerdict
CHECK_DEADLOCK FALSE
