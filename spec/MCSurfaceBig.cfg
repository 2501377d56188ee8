SPECIFICATION Spec
CONSTANTS Longest = 7
INVARIANTS Same Itself Kept
CHECK_DEADLOCK FALSE
