---------------------------- MODULE TraceHijri ----------------------------
(* Observations of Hijri dates: r.c day, month, year and its digits as written, r.t whether a time is written, r.w that *)
(* time, r.off the offset the result has to carry, r.rtp the configuration, r.o what the implementation answered.      *)
EXTENDS Hijri, TimeOfDay, TraceBase

HijriVerdict(r) ==
    LET y == FullYear(r.c.y, r.c.yl)
    IN  IF ~InScope(y, r.c.m)
        THEN Judge(~r.o.some, "a date outside of the calendar was accepted")
        ELSE LET e == Civil(HijriDay(y, r.c.m, r.c.d))
                 t == IF r.t THEN ReadTime(r.w) ELSE [h |-> 0, mi |-> 0, s |-> 0, ns |-> 0, tp |-> "Day"]
             IN  IF ~r.o.some THEN Bad(<<"no result", e>>)
                 ELSE IF ~(r.o.y = e.y /\ r.o.mo = e.m /\ r.o.d = e.d) THEN Bad(<<"day", e>>)
                 ELSE IF ~(r.o.h = t.h /\ r.o.mi = t.mi /\ r.o.s = t.s /\ r.o.ns = t.ns) THEN Bad(<<"time", t>>)
                 ELSE IF r.o.off # r.off THEN Bad(<<"offset", r.off>>)
                 ELSE Judge(r.o.per = (IF r.rtp THEN t.tp ELSE "Day"), <<"period", t>>)
=============================================================================
