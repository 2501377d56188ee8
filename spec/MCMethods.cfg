SPECIFICATION Spec
CONSTANTS
 Used = {0, 2, 4, 5}
 Longest = 4
INVARIANTS OnlyEnabled IfAny LocaleFirst OrderOnlyChooses
PROPERTY Prior
