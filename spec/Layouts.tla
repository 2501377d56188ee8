------------------------------- MODULE Layouts -------------------------------
(***************************************************************************)
(* Dates in the layouts of the languages. The table layouts.json holds, for *)
(* some 500 locales, layouts that Unicode gives them (taken out of ICU, not *)
(* out of this repository) and that go-dateparser undertakes to read:       *)
(*   rows   loc, the locale; l, its layout; m, w, p, its words for months,  *)
(*          weekdays and the halves of the day (0: the layout has none)      *)
(*   lays   a layout is a sequence of pieces: text as it stands ("lit"),     *)
(*          "d", "mo", "y", "h", "mi", "s" a number of v digits (1: as many  *)
(*          as it needs), "M", "W", "P" a word                               *)
(*   words  lists of words, in the order of months, of weekdays from Monday, *)
(*          or before and after noon                                         *)
(* A moment x (y, m, d, wd, h, mi, s) is written by putting the pieces       *)
(* together; what is written is what a reader gets to know of the moment.    *)
(***************************************************************************)
EXTENDS Absolute, Json, TLC

Layouts == JsonDeserialize("layouts.json")
Rows == Layouts.rows

Digits(n, v) == IF v = "2" /\ n < 10 THEN "0" \o ToString(n) ELSE ToString(n)

Hour(row, h) == IF row.p = 0 THEN h ELSE ((h + 11) % 12) + 1

Piece(row, p, x) ==
    CASE p.k = "lit" -> p.v
      [] p.k = "M" -> Layouts.words[row.m][x.m]
      [] p.k = "W" -> Layouts.words[row.w][x.wd]
      [] p.k = "P" -> Layouts.words[row.p][IF x.h < 12 THEN 1 ELSE 2]
      [] p.k = "d" -> Digits(x.d, p.v)
      [] p.k = "mo" -> Digits(x.m, p.v)
      [] p.k = "y" -> IF p.v = "4" THEN ToString(x.y) ELSE Digits(x.y % 100, "2")
      [] p.k = "h" -> Digits(Hour(row, x.h), p.v)
      [] p.k = "mi" -> Digits(x.mi, p.v)
      [] OTHER -> Digits(x.s, p.v)

RECURSIVE Put(_, _, _, _)
Put(row, q, x, k) == IF k > Len(q) THEN "" ELSE Piece(row, q[k], x) \o Put(row, q, x, k + 1)

TextOf(row, x) == Put(row, Layouts.lays[row.l], x, 1)

Has(q, k) == \E i \in 1..Len(q) : q[i].k = k
Long(q, k) == \E i \in 1..Len(q) : q[i].k = k /\ q[i].v = "4"

(* The parts of x that the layout writes. *)
Written(row, x) ==
    LET q == Layouts.lays[row.l]
    IN  [wd |-> IF Has(q, "W") THEN x.wd ELSE 0,
         d  |-> IF Has(q, "d") THEN x.d ELSE 0,
         m  |-> IF Has(q, "M") \/ Has(q, "mo") THEN x.m ELSE 0,
         y  |-> IF ~Has(q, "y") THEN 0 ELSE IF Long(q, "y") THEN x.y ELSE x.y % 100,
         yl |-> IF ~Has(q, "y") THEN 0 ELSE IF Long(q, "y") THEN 4 ELSE 2,
         t  |-> Has(q, "h"), h |-> IF Has(q, "h") THEN x.h ELSE 0,
         mi |-> IF Has(q, "mi") THEN x.mi ELSE 0, s |-> IF Has(q, "s") THEN x.s ELSE 0, ns |-> 0,
         tp |-> IF Has(q, "s") THEN "Second" ELSE IF Has(q, "mi") THEN "Minute" ELSE IF Has(q, "h") THEN "Hour" ELSE ""]

(* The order in which a layout writes day, month and year. *)
LetterOf(k) == CASE k = "d" -> "D" [] k \in {"mo", "M"} -> "M" [] k = "y" -> "Y" [] OTHER -> ""
RECURSIVE Letters(_, _)
Letters(q, k) == IF k > Len(q) THEN "" ELSE LetterOf(q[k].k) \o Letters(q, k + 1)
OrderOf(row) == Letters(Layouts.lays[row.l], 1)
=============================================================================
