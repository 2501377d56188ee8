SPECIFICATION Spec
CONSTANTS Days = {1, 29, 31} Months = {2, 4} Years = {2015}
INVARIANTS Real FirstWins SecondElse NoYear
