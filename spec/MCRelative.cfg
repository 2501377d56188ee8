SPECIFICATION Spec
CONSTANT AMOUNTS = {0, 1, 500, 999, 1000, 1500, 2250, 3333, 10000, 13001, 36000}
CONSTANT DAYS = {16494, 16495, 16503, 16740, 16741, 16800, 16860, 17166, 17236, 17225}
INVARIANT Whole
INVARIANT Limited
INVARIANT Conserved
INVARIANT Back
INVARIANT Side
INVARIANT Preference
INVARIANT EndKept
INVARIANT Clock
INVARIANT Few
CHECK_DEADLOCK FALSE
