SPECIFICATION Spec
CONSTANTS Longest = 5
INVARIANTS Same Itself Kept
CHECK_DEADLOCK FALSE
