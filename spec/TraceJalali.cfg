SPECIFICATION Spec
CONSTANT Verdict <- JalaliVerdict
CHECK_DEADLOCK FALSE
