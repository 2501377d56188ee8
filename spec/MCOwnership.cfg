SPECIFICATION Spec
CONSTANTS
 Cap = 2
 Steps = 5
 Careless = FALSE
INVARIANT LeftAlone
