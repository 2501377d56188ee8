------------------------------ MODULE TimeOfDay ------------------------------
(***************************************************************************)
(* How a time of day is read. What is written, w:                          *)
(*    w.h, w.mi, w.s   hour, minute, second; -1 when it is not written      *)
(*    w.f              the digits after the seconds, a sequence             *)
(*    w.ap             "", "am" or "pm"                                     *)
(***************************************************************************)
EXTENDS Calendar

(* The first six digits of the fraction, as nanoseconds. *)
RECURSIVE Frac(_, _)
Frac(f, k) == IF k > 6 THEN 0
              ELSE (IF k <= Len(f) THEN f[k] * 10 ^ (9 - k) ELSE 0) + Frac(f, k + 1)

(* Which hours can be written: with seconds or without minutes, AM/PM needs the 12-hour clock; *)
(* an hour and a minute may carry a redundant AM/PM.                                            *)
Readable(w) ==
    /\ w.h >= 0 /\ w.h <= 23
    /\ w.mi <= 59 /\ w.s <= 59
    /\ w.mi = -1 => w.ap # "" /\ w.s = -1 /\ w.h <= 12
    /\ w.s = -1 => w.f = <<>>
    /\ (w.s # -1 /\ w.ap # "") => w.h <= 12

Hour24(w) == CASE w.ap = "am" /\ w.h = 12 -> 0
               [] w.ap = "pm" /\ w.h < 12 -> w.h + 12
               [] OTHER                   -> w.h

Precision(w) == CASE w.mi = -1 -> "Hour" [] w.s = -1 -> "Minute" [] OTHER -> "Second"

ReadTime(w) == [h |-> Hour24(w), mi |-> Max(w.mi, 0), s |-> Max(w.s, 0), ns |-> Frac(w.f, 1), tp |-> Precision(w)]
=============================================================================
