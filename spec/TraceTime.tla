------------------------------ MODULE TraceTime ------------------------------
(* Observations of a time of day: r.w what is written, r.ok whether a result is expected at all when *)
(* it is readable, r.d the day it belongs to (y, m, d, 0 0 0 when unknown), r.rtp the configuration.  *)
EXTENDS TimeOfDay, TraceBase

TimeVerdict(r) ==
    IF ~Readable(r.w)
    THEN Judge(~r.o.some, "a time out of range was accepted")
    ELSE LET t == ReadTime(r.w)
         IN  IF ~r.o.some THEN Bad(<<"no result", t>>)
             ELSE IF ~(r.o.h = t.h /\ r.o.mi = t.mi /\ r.o.s = t.s /\ r.o.ns = t.ns) THEN Bad(<<"time", t>>)
             ELSE IF ~(r.o.y = r.d.y /\ r.o.mo = r.d.m /\ r.o.d = r.d.d) THEN Bad(<<"day", r.d>>)
             ELSE Judge(r.o.per = (IF r.rtp THEN t.tp ELSE "Day"), <<"period", t>>)
=============================================================================
