----------------------------- MODULE MCCalendar -----------------------------
(* Walks the calendar day by day, with nothing but "the next day", and shows that the closed *)
(* forms of Calendar agree with the walk on every day from 1 March 0 to the end of year 2500. *)
EXTENDS Calendar, TLC

VARIABLES y, m, d, n, wd
vars == <<y, m, d, n, wd>>

CONSTANTS FromYear, ToYear

Init == \E c \in (FromYear \div 100)..(ToYear \div 100 - 1) :
    /\ y = c * 100 /\ m = 3 /\ d = 1
    /\ n = DayNum(y, m, d) /\ wd = Weekday(n)

Next ==
    /\ y < ToYear

    /\ n' = n + 1
    /\ wd' = (wd % 7) + 1
    /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
       ELSE /\ d' = 1
            /\ IF m < 12 THEN m' = m + 1 /\ y' = y
               ELSE m' = 1 /\ y' = y + 1

Spec == Init /\ [][Next]_vars

Agree ==
    /\ DayNum(y, m, d) = n
    /\ Civil(n) = [y |-> y, m |-> m, d |-> d]
    /\ Weekday(n) = wd
    /\ ValidYMD(y, m, d)

Anchor == (y = 1970 /\ m = 1 /\ d = 1) => (n = 0 /\ wd = 4)
=============================================================================
