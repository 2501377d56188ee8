SPECIFICATION Spec
CONSTANT Verdict <- HijriVerdict
CHECK_DEADLOCK FALSE
