SPECIFICATION Spec
CONSTANTS
 Some = {"fr", "nl"}
 Lists = TRUE
 Regions = {"", "BE"}
VIEW Memory
INVARIANT NoDoubles
PROPERTIES OnlyAllowed Complete DefaultsLast InOrder Grows Forgets Earliest
