SPECIFICATION Spec
CONSTANT Verdict <- FmtVerdict
CHECK_DEADLOCK FALSE
