------------------------------ MODULE MCHijri ------------------------------
(* The calendar day by day, from its first to its last. *)
EXTENDS Hijri, TLC
VARIABLES y, m, d, day
Init == y = FirstYear /\ m = 1 /\ d = 1 /\ day = Starts[1]
Tomorrow ==
    /\ day' = day + 1
    /\ IF d < MonthLength(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
       ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
       ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Next == ~(y = LastYear /\ m = 12 /\ d = MonthLength(y, m)) /\ Tomorrow
Same == HijriDay(y, m, d) = day
Months == MonthLength(y, m) \in 28..30
Years == MonthStart(y, 1) + 350 <= MonthStart(y, 12) + MonthLength(y, 12) /\ MonthStart(y, 12) + MonthLength(y, 12) - MonthStart(y, 1) \in 353..355
Beyond == d = MonthLength(y, m) => \A k \in d..31 : HijriDay(y, m, k) = day
(* Days that everybody knows. *)
Known == /\ HijriDay(1445, 1, 1) = DayNum(2023, 7, 19) /\ HijriDay(1444, 9, 1) = DayNum(2023, 3, 23)
         /\ HijriDay(1432, 9, 14) = DayNum(2011, 8, 14) /\ HijriDay(1500, 12, 29) = Starts[Len(Starts)] - (Starts[Len(Starts)] - MonthStart(1500, 12)) + 28
Back == d = 1 => HijriOf(day) = [y |-> y, m |-> m, d |-> d]
Spec == Init /\ [][Next]_<<y, m, d, day>>
=============================================================================
