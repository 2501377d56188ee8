-------------------------------- MODULE Zones --------------------------------
(***************************************************************************)
(* Time zones. A zone is a record                                           *)
(*    z.rule  "fixed", "us", "eu", "sydney"                                 *)
(*    z.std   its standard offset in seconds; the saving is one hour        *)
(* The rules are those in force from 2008 on. An instant is <<day, second,  *)
(* nanosecond>> in UTC, a wall clock the same triple on some clock.         *)
(***************************************************************************)
EXTENDS Calendar

(* The day number of the k-th (k > 0) weekday w of a month, or of its last one (k = 0). *)
NthWeekday(y, m, w, k) ==
    LET first == DayNum(y, m, 1)
        last  == DayNum(y, m, DaysIn(y, m))
    IN  IF k > 0 THEN first + ((w - Weekday(first)) % 7) + (7 * (k - 1))
        ELSE last - ((Weekday(last) - w) % 7)

AtLeast(a, b) == ~Later(b, a)

Within(t, from, to) == AtLeast(t, from) /\ ~AtLeast(t, to)

(* Whether the clocks of zone z are forward at instant t. *)
Saving(z, t) ==
    LET y == Civil(Shift(t, z.std)[1]).y
    IN  CASE z.rule = "us" ->
               Within(t, Shift(<<NthWeekday(y, 3, 7, 2), 7200, 0>>, -z.std),
                         Shift(<<NthWeekday(y, 11, 7, 1), 3600, 0>>, -z.std))
          [] z.rule = "eu" ->
               Within(t, <<NthWeekday(y, 3, 7, 0), 3600, 0>>, <<NthWeekday(y, 10, 7, 0), 3600, 0>>)
          [] z.rule = "sydney" ->
               ~Within(t, Shift(<<NthWeekday(y, 4, 7, 1), 7200, 0>>, -z.std),
                          Shift(<<NthWeekday(y, 10, 7, 1), 7200, 0>>, -z.std))
          [] OTHER -> FALSE

OffsetAt(z, t) == IF Saving(z, t) THEN z.std + 3600 ELSE z.std

WallAt(z, t) == Shift(t, OffsetAt(z, t))

Offsets(z) == IF z.rule = "fixed" THEN {z.std} ELSE {z.std, z.std + 3600}

(* The instants at which the clock of z shows the wall clock w: one, two when the clocks are turned *)
(* back, none when they are turned forward.                                                           *)
Instants(z, w) == {t \in {Shift(w, -o) : o \in Offsets(z)} : WallAt(z, t) = w}

(* What a wall clock may denote: when it does not exist, it is read with the offset before or after. *)
Denoted(z, w) == IF Instants(z, w) # {} THEN Instants(z, w) ELSE {Shift(w, -o) : o \in Offsets(z)}
=============================================================================
