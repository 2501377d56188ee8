SPECIFICATION Spec
CONSTANTS
  Nows <- TNows
  Days = {0, 1, 15, 28, 29, 30, 31}
  Months = {0, 1, 2, 4, 12}
  Years <- TYears
  Times <- QTimes
  Shifts = {0, 39600, 86399}
  Sources = {0, 1, 2}
  Doms = {0, 1, 2}
  Moys = {0, 1, 2}
INVARIANTS WrittenKept Valid OnlyImpossible PastKept FutureKept Nearest NearestYear DemandsFilter PeriodTells
