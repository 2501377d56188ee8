SPECIFICATION Spec
CONSTANTS
  Nows <- QNows
  Days = {0, 1, 28, 29, 31}
  Months = {0, 1, 2, 4}
  Years <- QYears
  Times <- QTimes
  Shifts = {0, 39600}
  Sources = {0, 1, 2}
  Doms = {0, 1, 2}
  Moys = {0, 2}
INVARIANTS WrittenKept Valid OnlyImpossible PastKept FutureKept Nearest NearestYear DemandsFilter PeriodTells
