----------------------------- MODULE MCNoSpace -----------------------------
(* Every date that is written with two digits for day and month and four for the year, with or without   *)
(* hours, minutes and seconds, is read back in each order; and what is read is always an existing date.   *)
EXTENDS NoSpace, TLC
CONSTANTS FirstDay, LastDay, StepDay
VARIABLES day, order, clock

D2(n) == <<n \div 10, n % 10>>
D4(n) == D2(n \div 100) \o D2(n % 100)
Write(p, c) == CASE p = "y" -> D4(c.y) [] p = "m" -> D2(c.m) [] OTHER -> D2(c.d)
Time(c) == CASE c = 0 -> << >> [] c = 1 -> D2(0) \o D2(0) \o D2(0) [] c = 2 -> D2(23) \o D2(59) \o D2(59)
             [] c = 3 -> D2(1) \o D2(2) \o D2(3) [] OTHER -> D2(12) \o D2(30) \o D2(45)
Clock(c) == CASE c = 0 -> <<0, 0, 0>> [] c = 1 -> <<0, 0, 0>> [] c = 2 -> <<23, 59, 59>> [] c = 3 -> <<1, 2, 3>> [] OTHER -> <<12, 30, 45>>
Text == LET c == Civil(day) IN Write(order[1], c) \o Write(order[2], c) \o Write(order[3], c) \o Time(clock)

Init == day = FirstDay /\ order \in Orders /\ clock \in 0..4
Next == day + StepDay <= LastDay /\ day' = day + StepDay /\ UNCHANGED <<order, clock>>
Spec == Init /\ [][Next]_<<day, order, clock>>

RoundTrip ==
    LET c == Civil(day)
        r == Read(<<Text>>, order, FALSE)
    IN  (order # <<"m","d","y">> \/ clock # 0) =>
          /\ Len(r) = 1
          /\ <<r[1].Y, r[1].m, r[1].d>> = <<c.y, c.m, c.d>>
          /\ <<r[1].H, r[1].M, r[1].S>> = Clock(clock)

(* In the month-day-year order the date is read too, unless the layout of the preferred kind reads another one. *)
Mdy == LET c == Civil(day)
           r == Read(<<Text>>, order, FALSE)
           p == Cut(Text, <<"Y","m","d","H","M">>, 1, 1, Empty)
       IN  (order = <<"m","d","y">> /\ clock = 0) => Len(r) = 1 /\ r[1] = (IF p # << >> THEN p[1] ELSE [Empty EXCEPT !.Y = c.y, !.m = c.m, !.d = c.d])

(* A complete date meets every demand. *)
Demanded == Read(<<Text>>, order, TRUE) = Read(<<Text>>, order, FALSE) \/ order = <<"m","d","y">>

(* Spoiling the day leaves nothing that exists in that layout. *)
Exists == LET ds == [i \in 1..Len(Text) |-> (Text[i] + 3) % 10]
              r  == Read(<<ds>>, order, FALSE)
          IN  r # << >> => r[1].m \in 1..12 /\ r[1].d \in 1..DaysIn(r[1].Y, r[1].m) /\ r[1].H \in 0..23 /\ r[1].M \in 0..59
=============================================================================
