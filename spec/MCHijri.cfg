SPECIFICATION Spec
INVARIANTS Same Months Years Beyond Known Back
CHECK_DEADLOCK FALSE
