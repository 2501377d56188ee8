SPECIFICATION Spec
CONSTANTS
 Lang = {1, 2, 3}
 Char = {"a"}
 Procs = {1, 2}
 Longest = 2
 Once = TRUE
INVARIANT AsAlone
PROPERTY Returns
