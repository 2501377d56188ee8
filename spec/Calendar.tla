------------------------------ MODULE Calendar ------------------------------
(* The proleptic Gregorian calendar. A day is a number: 1970-01-01 is day 0. *)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

MonthLen == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>

DaysIn(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE MonthLen[m]

ValidYMD(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)

DayNum(y, m, d) ==
    LET yy  == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp  == IF m > 2 THEN m - 3 ELSE m + 9
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN  era * 146097 + doe - 719468

Civil(n) ==
    LET z   == n + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp  == (5 * doy + 2) \div 153
        d   == doy - (153 * mp + 2) \div 5 + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y   == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN  [y |-> y, m |-> m, d |-> d]

(* 1 = Monday .. 7 = Sunday *)
Weekday(n) == ((n + 3) % 7) + 1

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

(* The same day k months later: the day is kept, or limited to the last one of the month. *)
AddMonthsClamp(y, m, d, k) ==
    LET i  == y * 12 + (m - 1) + k
        yy == i \div 12
        mm == (i % 12) + 1
    IN  [y |-> yy, m |-> mm, d |-> Min(d, DaysIn(yy, mm))]

(* The same day k months later: days that the month does not have run into the next month. *)
AddMonthsRoll(y, m, d, k) ==
    LET i  == y * 12 + (m - 1) + k
        yy == i \div 12
        mm == (i % 12) + 1
    IN  Civil(DayNum(yy, mm, 1) + d - 1)

(* An instant or a wall clock: day, second of the day, nanosecond. *)
Later(a, b) ==      \* a strictly after b
    \/ a[1] > b[1]
    \/ a[1] = b[1] /\ a[2] > b[2]
    \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] > b[3]

(* Moves an instant by a number of seconds, |k| < 2^30 *)
Shift(a, k) ==
    LET s == a[2] + k
    IN  <<a[1] + s \div 86400, s % 86400, a[3]>>

SecOfDay(h, mi, s) == h * 3600 + mi * 60 + s
=============================================================================
