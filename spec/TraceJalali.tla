---------------------------- MODULE TraceJalali ----------------------------
(* Observations of Jalali dates: r.c day and month as written (a number, or -1 and a word), year and its digits (0 when *)
(* none is written), r.ref the day of the reference, r.t whether a time is written, r.w that time, r.off the offset the  *)
(* result has to carry, r.rtp the configuration, r.o what the implementation answered.                                   *)
EXTENDS Jalali, TimeOfDay, TraceBase

JalaliVerdict(r) ==
    LET d == IF r.c.d < 0 THEN DayOf(r.c.dw) ELSE r.c.d
        m == IF r.c.m < 0 THEN MonthOf(r.c.mw) ELSE r.c.m
        ref == JalaliOf(DayNum(r.ref.y, r.ref.mo, r.ref.d))
        y == IF r.c.yl = 0 THEN YearFor(ref.y, m, d) ELSE FullYear(r.c.y, r.c.yl)
        e == Civil(JalaliDay(y, m, d))
        t == IF r.t THEN ReadTime(r.w) ELSE [h |-> 0, mi |-> 0, s |-> 0, ns |-> 0, tp |-> "Day"]
    IN  IF ~r.o.some THEN Bad(<<"no result", e>>)
        ELSE IF ~(r.o.y = e.y /\ r.o.mo = e.m /\ r.o.d = e.d) THEN Bad(<<"day", e>>)
        ELSE IF ~(r.o.h = t.h /\ r.o.mi = t.mi /\ r.o.s = t.s /\ r.o.ns = t.ns) THEN Bad(<<"time", t>>)
        ELSE IF r.o.off # r.off THEN Bad(<<"offset", r.off>>)
        ELSE Judge(r.o.per = (IF r.rtp THEN t.tp ELSE "Day"), <<"period", t>>)
=============================================================================
