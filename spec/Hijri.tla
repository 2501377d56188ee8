------------------------------- MODULE Hijri -------------------------------
(***************************************************************************)
(* The Umm al-Qura calendar: a table of the days on which its months begin,   *)
(* from 1356 to 1500 (the published table; 1420 to 1450 agree with the one of  *)
(* the Java platform). A day is a number as in Calendar.                        *)
(***************************************************************************)
EXTENDS Calendar, Json

Published == JsonDeserialize("ummalqura.json")
FirstYear == 1356
LastYear == 1500
Starts == Published.starts

InScope(y, m) == y \in FirstYear..LastYear /\ m \in 1..12
MonthIndex(y, m) == (y - FirstYear) * 12 + m
MonthStart(y, m) == Starts[MonthIndex(y, m)]
MonthLength(y, m) == Starts[MonthIndex(y, m) + 1] - Starts[MonthIndex(y, m)]

(* A day beyond the end of its month counts as the last day of the month. *)
HijriDay(y, m, d) == MonthStart(y, m) + Min(d, MonthLength(y, m)) - 1

(* Two digits mean a year between 1390 and 1489. *)
FullYear(y, digits) == IF digits = 4 THEN y ELSE IF y >= 90 THEN 1300 + y ELSE 1400 + y

(* The date of a day. *)
HijriOf(n) ==
    LET i == CHOOSE i \in 1..(Len(Starts) - 1) : Starts[i] <= n /\ n < Starts[i + 1]
    IN  [y |-> FirstYear + ((i - 1) \div 12), m |-> ((i - 1) % 12) + 1, d |-> n - Starts[i] + 1]
=============================================================================
