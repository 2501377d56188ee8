SPECIFICATION Spec
CONSTANT Verdict <- AbsVerdict
