SPECIFICATION Spec
CONSTANTS
  Langs = {"en", "fr", "de"}
  Letters = {98, 99}
  MaxKnown = 1
INVARIANTS Selected AnyOrder AnyCount Knower Letter NoLetters
CHECK_DEADLOCK FALSE
