SPECIFICATION Spec
CONSTANTS
 Some = {"en", "fr", "de"}
 Lists = FALSE
 Regions = {""}
VIEW Memory
INVARIANT NoDoubles
PROPERTIES OnlyAllowed Complete DefaultsLast InOrder Grows Forgets Earliest
