SPECIFICATION Spec
CONSTANTS
 MaxLen = 7
 MaxPhrases = 4
INVARIANTS Complete Bases Parts Silent Pieces TooMuch
PROPERTY Grows
CHECK_DEADLOCK FALSE
