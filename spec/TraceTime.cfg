SPECIFICATION Spec
CONSTANT Verdict <- TimeVerdict
