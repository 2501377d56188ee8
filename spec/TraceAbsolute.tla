---------------------------- MODULE TraceAbsolute ----------------------------
(* Observations of dates written in parts: r.c the parts, r.g the reference and the preferences, *)
(* r.o what the implementation answered. r.off is the offset that the result has to carry.       *)
EXTENDS Absolute, TraceBase

SameDate(e, o) ==
    IF ~e.some THEN ~o.some
    ELSE /\ o.some
         /\ o.y = e.y /\ o.mo = e.m /\ o.d = e.d
         /\ o.h = e.h /\ o.mi = e.mi /\ o.s = e.s /\ o.ns = e.ns

AbsVerdict(r) ==
    LET e == Resolve(r.c, r.g)
    IN  IF ~SameDate(e, r.o) THEN Bad(<<"date", e>>)
        ELSE IF ~e.some THEN Good
        ELSE IF r.o.per # e.per THEN Bad(<<"period", e>>)
        ELSE Judge(r.o.off = r.off, <<"offset", e>>)
=============================================================================
