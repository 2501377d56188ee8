SPECIFICATION Spec
CONSTANT Longest = 4
INVARIANTS AnyOrder Clean Parts More Same OnlyListed Default Once
CHECK_DEADLOCK FALSE
