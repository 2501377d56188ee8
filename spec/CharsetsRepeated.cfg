SPECIFICATION Spec
CONSTANTS
 Lang = {1, 2}
 Char = {"a"}
 Procs = {1}
 Longest = 2
 Once = FALSE
INVARIANT AsAlone
