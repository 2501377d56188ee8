---------------------------- MODULE TracePeriod ----------------------------
(* Observations of periods: r.method and r.w (a sequence) say what the text writes, r.rtp the option; r.o is the *)
(* answer, r.p the answer to the same call without the option.                                                    *)
EXTENDS Period, TraceBase

SetOf(s) == {s[i] : i \in 1..Len(s)}
DateIn(o) == <<o.some, o.y, o.mo, o.d, o.h, o.mi, o.s, o.ns, o.off, o.loc>>

PeriodVerdict(r) ==
    LET e == PeriodFor(r.method, SetOf(r.w), r.rtp)
    IN  IF ~r.o.some THEN Bad("no result")
        ELSE IF r.o.per # e THEN Bad(<<"period", e>>)
        ELSE IF r.p.per # PeriodFor(r.method, SetOf(r.w), FALSE) THEN Bad("period without the option")
        ELSE Judge(DateIn(r.o) = DateIn(r.p), "the option changes the date")
=============================================================================
