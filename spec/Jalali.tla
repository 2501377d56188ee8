------------------------------- MODULE Jalali -------------------------------
(***************************************************************************)
(* The Solar Hijri calendar of Iran, for the years 1244 to 1472, in which the  *)
(* leap years follow a cycle of 33 years. A day is a number as in Calendar.    *)
(* Words: the names of the months and the words for the days of a month.       *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets, Json

Words == JsonDeserialize("persian.json")
FirstYear == 1244
LastYear == 1472

LeapRests == {1, 5, 9, 13, 17, 22, 26, 30}
JalaliLeap(y) == (y % 33) \in LeapRests
MonthLength(y, m) == IF m <= 6 THEN 31 ELSE IF m <= 11 \/ JalaliLeap(y) THEN 30 ELSE 29

(* Leap years up to y, of the cycle that began with year 0. *)
LeapsUpTo(y) == 8 * (y \div 33) + Cardinality({k \in LeapRests : k <= y % 33})
YearStart(y) == DayNum(2015, 3, 21) + (365 * (y - 1394)) + LeapsUpTo(y - 1) - LeapsUpTo(1393)
BeforeMonth(m) == IF m <= 7 THEN 31 * (m - 1) ELSE 186 + (30 * (m - 7))

JalaliDay(y, m, d) == YearStart(y) + BeforeMonth(m) + Min(d, MonthLength(y, m)) - 1

JalaliOf(n) ==
    LET guess == 1394 + ((n - DayNum(2015, 3, 21)) \div 366)
        y == CHOOSE y \in (guess - 2)..(guess + 2) : YearStart(y) <= n /\ n < YearStart(y + 1)
        k == n - YearStart(y)
        m == IF k < 186 THEN (k \div 31) + 1 ELSE ((k - 186) \div 30) + 7
    IN  [y |-> y, m |-> m, d |-> k - BeforeMonth(m) + 1]

(* The leap year next to y, the earlier one of two that are equally near. *)
NearLeap(y) == CHOOSE x \in (y - 5)..(y + 5) :
    /\ JalaliLeap(x) /\ x # y
    /\ \A z \in (y - 5)..(y + 5) : (JalaliLeap(z) /\ z # y) =>
          LET dx == IF x < y THEN y - x ELSE x - y
              dz == IF z < y THEN y - z ELSE z - y
          IN  dx < dz \/ (dx = dz /\ x <= z)

FullYear(y, digits) == IF digits = 4 THEN y ELSE IF y > 60 THEN 1300 + y ELSE 1400 + y

(* Day 30 of the last month without a year: in a year that has it. *)
YearFor(ref, m, d) == IF m = 12 /\ d = 30 /\ ~JalaliLeap(ref) THEN NearLeap(ref) ELSE ref

MonthOf(w) == Words.months[w]
DayOf(w) == Words.days[w]
=============================================================================
