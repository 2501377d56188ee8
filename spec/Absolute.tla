------------------------------ MODULE Absolute ------------------------------
(***************************************************************************)
(* What a date that is written out in parts means. The string gives some   *)
(* of the parts                                                             *)
(*                                                                          *)
(*   c.wd  weekday 1..7 (Monday first), 0 when it is not written            *)
(*   c.d   day, 0 when it is not written        c.m  month, the same        *)
(*   c.y   year, with c.yl the number of its digits (0: no year, 2 or 4)    *)
(*   c.t   TRUE when a time of day is written: c.h, c.mi, c.s, c.ns         *)
(*   c.tp  the precision of that time: "Hour", "Minute" or "Second"         *)
(*                                                                          *)
(* and the rest is filled in from the moment of reference g.now and from    *)
(* the preferences g.src (0 current, 1 past, 2 future), g.dom (0 current,   *)
(* 1 first, 2 last day), g.moy (0 current, 1 first, 2 last month).          *)
(* All of this happens on the wall clock of the moment of reference;        *)
(* g.shift is the offset of the time zone of the reference minus the one of *)
(* the string, which only matters for the comparison with the reference.    *)
(***************************************************************************)
EXTENDS Calendar

None == [some |-> FALSE, y |-> 0, m |-> 0, d |-> 0, h |-> 0, mi |-> 0, s |-> 0, ns |-> 0, per |-> ""]

NowWall(g) == <<DayNum(g.y, g.mo, g.d), SecOfDay(g.h, g.mi, g.s), g.ns>>

TimeOf(c) == IF c.t THEN <<SecOfDay(c.h, c.mi, c.s), c.ns>> ELSE <<0, 0>>

Wall(c, y, m, d) == <<DayNum(y, m, d), TimeOf(c)[1], TimeOf(c)[2]>>

HasY(c) == c.yl # 0

(* The year that two digits stand for: 69..99 is the 20th century, 00..68 the 21st. *)
FullYear(c) == IF c.yl = 2 THEN (IF c.y >= 69 THEN 1900 + c.y ELSE 2000 + c.y) ELSE c.y

NextLeap(y) == CHOOSE k \in (y + 1)..(y + 8) : IsLeap(k) /\ \A j \in (y + 1)..(k - 1) : ~IsLeap(j)
PrevLeap(y) == CHOOSE k \in (y - 8)..(y - 1) : IsLeap(k) /\ \A j \in (k + 1)..(y - 1) : ~IsLeap(j)

(* The leap year to use for a 29 February without a year. *)
LeapFor(src, y) ==
    CASE src = 2 -> NextLeap(y)
      [] src = 1 -> PrevLeap(y)
      [] OTHER   -> IF NextLeap(y) - y < y - PrevLeap(y) THEN NextLeap(y) ELSE PrevLeap(y)

PrefMonth(g) == CASE g.moy = 1 -> 1 [] g.moy = 2 -> 12 [] OTHER -> g.mo

PrefDay(g, y, m) == CASE g.dom = 1 -> 1
                      [] g.dom = 2 -> DaysIn(y, m)
                      [] OTHER     -> Min(g.d, DaysIn(y, m))

(* Parts that a caller demands. *)
Missing(c) == (IF c.d = 0 THEN {"day"} ELSE {}) \cup (IF c.m = 0 THEN {"month"} ELSE {})
              \cup (IF ~HasY(c) THEN {"year"} ELSE {})

Demanded(g) == (IF g.strict THEN {"day", "month", "year"} ELSE {}) \cup {g.req[i] : i \in 1..Len(g.req)}

Complete(c, g) == Missing(c) \cap Demanded(g) = {}

Period(c) == CASE c.d # 0 -> "Day" [] c.m # 0 -> "Month" [] HasY(c) -> "Year" [] OTHER -> "Day"

PeriodOf(c, g) == IF c.t /\ g.rtp THEN c.tp ELSE Period(c)

-----------------------------------------------------------------------------
(* Whether a wall clock of the string lies after the reference, each in its own time zone. *)
After(c, g, y, m, d)  == Later(Shift(Wall(c, y, m, d), g.shift), NowWall(g))
Before(c, g, y, m, d) == Later(NowWall(g), Shift(Wall(c, y, m, d), g.shift))

AfterN(c, g, n)  == LET x == Civil(n) IN After(c, g, x.y, x.m, x.d)
BeforeN(c, g, n) == LET x == Civil(n) IN Before(c, g, x.y, x.m, x.d)

(* The first element of a sequence of candidates that is acceptable. *)
First(seq, ok(_)) == seq[CHOOSE i \in 1..Len(seq) : ok(seq[i]) /\ \A j \in 1..(i - 1) : ~ok(seq[j])]

(* Only a weekday: the nearest one on the preferred side. The day of reference itself is neither *)
(* past nor future.                                                                               *)
WeekdayOnly(c, g) ==
    LET n     == DayNum(g.y, g.mo, g.d)
        back  == (Weekday(n) - c.wd) % 7
        ahead == (c.wd - Weekday(n)) % 7
        b1    == IF back = 0 THEN 7 ELSE back
        a1    == IF ahead = 0 THEN 7 ELSE ahead
        future(k) == ~BeforeN(c, g, k)
        past(k)   == ~AfterN(c, g, k)
    IN  Civil(CASE g.src = 2 -> First(<<n + a1, n + a1 + 7, n + a1 + 14>>, future)
                [] g.src = 1 -> First(<<n - b1, n - b1 - 7, n - b1 - 14>>, past)
                [] OTHER     -> n - back)

(* Only a time: the day of reference, or the nearest day that puts it on the preferred side. *)
TimeOnly(c, g) ==
    LET n  == DayNum(g.y, g.mo, g.d)
        future(k) == ~BeforeN(c, g, k)
        past(k)   == ~AfterN(c, g, k)
    IN  Civil(CASE g.src = 1 -> First(<<n, n - 1, n - 2, n - 3>>, past)
                [] g.src = 2 -> First(<<n, n + 1, n + 2, n + 3>>, future)
                [] OTHER     -> n)

(* A month without a year: the year of reference, or the nearest one on the preferred side. The *)
(* day is chosen first; a 29 February exists in leap years only.                                *)
MonthNoYear(c, g) ==
    LET leap     == c.d = 29 /\ c.m = 2
        start    == IF leap /\ ~IsLeap(g.y) THEN LeapFor(g.src, g.y) ELSE g.y
        day(y)   == IF c.d # 0 THEN c.d
                    ELSE IF c.t \/ c.wd # 0 THEN Min(Min(g.d, DaysIn(start, c.m)), DaysIn(y, c.m))
                    ELSE PrefDay(g, y, c.m)
        exists(y) == ~leap \/ IsLeap(y)
        past(y)   == exists(y) /\ ~After(c, g, y, c.m, day(y))
        future(y) == exists(y) /\ After(c, g, y, c.m, day(y))
        year == CASE g.src = 1 -> First([i \in 1..20 |-> start + 1 - i], past)
                  [] g.src = 2 -> First([i \in 1..20 |-> start - 1 + i], future)
                  [] OTHER     -> start
    IN  [y |-> year, m |-> c.m, d |-> day(year)]

(* A year of two digits: the century moves to the preferred side when the date exists there. *)
Century(c, g, y, m, d) ==
    LET late == After(c, g, y, m, d)
        y2   == CASE g.src = 1 /\ late  -> y - 100
                  [] g.src = 2 /\ ~late -> y + 100
                  [] OTHER              -> y
    IN  IF c.d # 0 /\ d > DaysIn(y2, m) THEN [y |-> y, m |-> m, d |-> d]
        ELSE [y |-> y2, m |-> m, d |-> Min(d, DaysIn(y2, m))]

(* The first choice, before the preferences for month and day. *)
Frame(c, g) ==
    LET y == IF HasY(c) THEN FullYear(c) ELSE g.y
        m == IF c.m # 0 THEN c.m ELSE IF c.d # 0 THEN PrefMonth(g) ELSE g.mo
        d == IF c.d # 0 THEN c.d ELSE Min(g.d, DaysIn(y, m))
    IN  CASE c.wd # 0 /\ c.d = 0 /\ c.m = 0 /\ ~HasY(c) -> WeekdayOnly(c, g)
          [] c.wd = 0 /\ c.d = 0 /\ c.m = 0 /\ ~HasY(c) -> TimeOnly(c, g)
          [] c.m # 0 /\ ~HasY(c)                        -> MonthNoYear(c, g)
          [] c.yl = 2                                   -> Century(c, g, y, m, d)
          [] OTHER                                      -> [y |-> y, m |-> m, d |-> d]

(* Whether the written parts exist together. *)
Exists(c, g) ==
    LET y == IF HasY(c) THEN FullYear(c) ELSE g.y
        m == IF c.m # 0 THEN c.m ELSE PrefMonth(g)
    IN  \/ c.d = 0
        \/ c.d <= DaysIn(y, m)
        \/ c.d = 29 /\ m = 2 /\ ~HasY(c)

(* A day 29 without month and year in a February of reference: the nearest leap year. *)
DayOnlyLeap(c, g) == c.d = 29 /\ c.m = 0 /\ ~HasY(c) /\ PrefMonth(g) = 2 /\ ~IsLeap(g.y)

ApplyMonth(c, g, r) ==
    IF c.m # 0 \/ ((c.wd # 0 \/ c.t) /\ ~HasY(c) /\ c.d = 0) THEN r
    ELSE [y |-> r.y, m |-> PrefMonth(g), d |-> Min(r.d, DaysIn(r.y, PrefMonth(g)))]

ApplyDay(c, g, r) ==
    IF c.d # 0 \/ c.t \/ c.wd # 0 THEN r
    ELSE [y |-> r.y, m |-> r.m, d |-> PrefDay(g, r.y, r.m)]

Resolve(c, g) ==
    IF ~Complete(c, g) \/ ~Exists(c, g) THEN None
    ELSE LET f0 == Frame(c, g)
             f  == IF DayOnlyLeap(c, g) THEN [f0 EXCEPT !.y = LeapFor(g.src, g.y)] ELSE f0
             r  == ApplyDay(c, g, ApplyMonth(c, g, f))
         IN  [some |-> TRUE, y |-> r.y, m |-> r.m, d |-> r.d,
              h  |-> IF c.t THEN c.h ELSE 0,  mi |-> IF c.t THEN c.mi ELSE 0,
              s  |-> IF c.t THEN c.s ELSE 0,  ns |-> IF c.t THEN c.ns ELSE 0,
              per |-> PeriodOf(c, g)]
=============================================================================
