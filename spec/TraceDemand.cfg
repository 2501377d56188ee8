SPECIFICATION Spec
CONSTANT Verdict <- DemandVerdict
