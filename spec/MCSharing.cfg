SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 Lang = {1, 2}
 Pieces = 2
 Calls = 2
 Guarded = TRUE
INVARIANTS NoRace AsAlone Held
PROPERTY Returns
CHECK_DEADLOCK FALSE
