------------------------------ MODULE MCJalali ------------------------------
(* The calendar day by day, from its first to its last. *)
EXTENDS Jalali, TLC
VARIABLES y, m, d, day
Init == y = FirstYear /\ m = 1 /\ d = 1 /\ day = YearStart(FirstYear)
Tomorrow ==
    /\ day' = day + 1
    /\ IF d < MonthLength(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
       ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
       ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Next == ~(y = LastYear /\ m = 12 /\ d = MonthLength(y, m)) /\ Tomorrow
Same == JalaliDay(y, m, d) = day
Back == JalaliOf(day) = [y |-> y, m |-> m, d |-> d]
Spring == (m = 1 /\ d = 1) => LET c == Civil(day) IN c.m = 3 /\ c.d \in 19..22
Near == (m = 1 /\ d = 1) => JalaliLeap(NearLeap(y))
(* Days that everybody knows. *)
Known == /\ YearStart(1403) = DayNum(2024, 3, 20) /\ YearStart(1404) = DayNum(2025, 3, 21) /\ YearStart(1375) = DayNum(1996, 3, 20)
         /\ YearStart(1300) = DayNum(1921, 3, 21) /\ YearStart(1409) = DayNum(2030, 3, 21) /\ JalaliDay(1357, 11, 22) = DayNum(1979, 2, 11)
         /\ JalaliDay(1387, 12, 30) = DayNum(2009, 3, 20)
Spec == Init /\ [][Next]_<<y, m, d, day>>
=============================================================================
