SPECIFICATION Spec
CONSTANTS Values = {0, 1, 5, 12, 13, 28, 31, 32, 69, 99} Longs = {1999, 2021}
INVARIANTS InOrder OnlyOne Found NothingInvented Named
