SPECIFICATION Spec
CONSTANTS FromYear = 1500 ToYear = 2500
INVARIANTS Agree Anchor
