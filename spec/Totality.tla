------------------------------ MODULE Totality ------------------------------
(***************************************************************************)
(* What every answer looks like, whatever was asked.                          *)
(***************************************************************************)
EXTENDS Locales, Calendar

Periods == {"Second", "Minute", "Hour", "Day", "Month", "Year"}

(* A date and time of a clock in a zone, with the instant that it denotes. (d.far: of a year beyond the hundred *)
(* thousandth, where the arithmetic of the model checker ends.)                                                    *)
Sound(d) == /\ d.h \in 0..23 /\ d.mi \in 0..59 /\ d.s \in 0..59 /\ d.ns \in 0..999999999 /\ d.off \in -86399..86399 /\ d.es \in 0..86399
            /\ d.far \/ LET clock == d.es + d.off
                        IN  /\ ValidYMD(d.y, d.mo, d.d)
                            /\ DayNum(d.y, d.mo, d.d) = d.ed + (clock \div 86400)
                            /\ SecOfDay(d.h, d.mi, d.s) = clock % 86400
                            /\ d.wd = Weekday(DayNum(d.y, d.mo, d.d))
Dated(d) == d.some /\ Sound(d) /\ d.per \in Periods
(* The zero date: no moment, no period, no locale. *)
Nothing(d) == ~d.some /\ d.loc = "" /\ d.per = "" /\ d.y = 1 /\ d.mo = 1 /\ d.d = 1 /\ d.h = 0 /\ d.mi = 0 /\ d.s = 0 /\ d.ns = 0 /\ d.off = 0

(* The locale that an answer names: of a search its language; none for the two calendars of their own; none for a format *)
(* that matched the text as it is.                                                                                          *)
Named(r, d) == CASE r.op = "parse" -> Known(d.loc) \/ (r.fmts /\ d.loc = "")
                 [] r.op \in {"search", "searchlang"} -> d.loc = r.lang /\ Known(d.loc)
                 [] OTHER -> d.loc = ""
Answers(r) ==
    IF r.op = "poptz" THEN ~r.e /\ r.num \in -86399..86399
    ELSE IF r.op \in {"parse", "hijri", "jalali"} THEN IF r.e THEN Nothing(r.d) ELSE Dated(r.d) /\ Named(r, r.d)
    ELSE IF r.e THEN r.f = <<>> ELSE \A i \in 1..Len(r.f) : Dated(r.f[i]) /\ Named(r, r.f[i])
=============================================================================
