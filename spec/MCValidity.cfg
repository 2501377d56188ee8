SPECIFICATION Spec
INVARIANTS PreferencesCount ParseIsStrictest CalendarsUseOnlyThese DefaultIsFine
