------------------------------ MODULE Timestamp ------------------------------
(***************************************************************************)
(* Unix timestamps. A text of digits, x.ds (a sequence), perhaps after a    *)
(* minus sign (x.neg), with other characters before or after it (x.pure is  *)
(* FALSE). Ten digits count seconds, three more milliseconds, three more    *)
(* microseconds. Numbers are kept as day and second: ten digits do not fit  *)
(* the integers of the model checker.                                       *)
(***************************************************************************)
EXTENDS Calendar

(* <<days, seconds>> of the number that the first k digits write *)
RECURSIVE Count(_, _)
Count(ds, k) ==
    IF k = 0 THEN <<0, 0>>
    ELSE LET c == Count(ds, k - 1)
             s == (c[2] * 10) + ds[k]
         IN  <<(c[1] * 10) + (s \div 86400), s % 86400>>

Digit(ds, k) == IF k <= Len(ds) THEN ds[k] ELSE 0

Micros(ds) == (((((((((Digit(ds, 11) * 10) + Digit(ds, 12)) * 10) + Digit(ds, 13)) * 10) + Digit(ds, 14)) * 10)
                 + Digit(ds, 15)) * 10) + Digit(ds, 16)

Negate(c) == IF c[2] = 0 THEN <<-c[1], 0>> ELSE <<(-c[1]) - 1, 86400 - c[2]>>

(* Which texts are timestamps for the parsing methods that are enabled. *)
IsTimestamp(x, pos, neg) ==
    /\ x.pure
    /\ Len(x.ds) \in {10, 13, 16}
    /\ IF x.neg THEN neg ELSE pos

(* The instant; the sign only counts for the whole seconds. *)
Instant(x) ==
    LET c == Count(x.ds, 10)
        e == IF x.neg THEN Negate(c) ELSE c
    IN  <<e[1], e[2], Micros(x.ds) * 1000>>
=============================================================================
