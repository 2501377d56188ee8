SPECIFICATION Spec
CONSTANTS
 Procs = {1, 2}
 Lang = {1, 2}
 Pieces = 2
 Calls = 2
 Guarded = FALSE
INVARIANTS NoRace
CHECK_DEADLOCK FALSE
