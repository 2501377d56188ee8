SPECIFICATION Spec
INVARIANTS RoundTrip InDay FracOk
