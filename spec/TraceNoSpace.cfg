SPECIFICATION Spec
CONSTANT Verdict <- NsVerdict
CHECK_DEADLOCK FALSE
