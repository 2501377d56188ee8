SPECIFICATION Spec
CONSTANT Verdict <- PeriodVerdict
CHECK_DEADLOCK FALSE
