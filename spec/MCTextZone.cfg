SPECIFICATION Spec
INVARIANT Sane
INVARIANT Priority
INVARIANT NowIsNow
INVARIANT WallKept
CHECK_DEADLOCK FALSE
