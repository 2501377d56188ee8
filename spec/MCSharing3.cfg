SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2, 3}
 Lang = {1, 2}
 Pieces = 2
 Calls = 1
 Guarded = TRUE
INVARIANTS NoRace AsAlone Held
CHECK_DEADLOCK FALSE
