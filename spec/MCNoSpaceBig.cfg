SPECIFICATION Spec
CONSTANTS FirstDay = 0 LastDay = 60000 StepDay = 3
INVARIANTS RoundTrip Mdy Demanded Exists
