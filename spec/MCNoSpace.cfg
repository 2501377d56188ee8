SPECIFICATION Spec
CONSTANTS FirstDay = 10000 LastDay = 24000 StepDay = 11
INVARIANTS RoundTrip Mdy Demanded Exists
