--------------------------- MODULE TraceTimestamp ---------------------------
(* Observations of timestamps: r.x the text, r.pos and r.neg the methods that are enabled, r.z the zone of *)
(* the host, r.rtp the configuration, r.o the answer.                                                        *)
EXTENDS Timestamp, Zones, TraceBase

(* the rules of a zone are the present ones *)
Known(z, t) == (z.rule = "fixed" /\ z.std = 0) \/ (t[1] >= DayNum(2008, 1, 1) /\ t[1] < DayNum(2037, 1, 1))

TsVerdict(r) ==
    IF ~IsTimestamp(r.x, r.pos, r.neg) THEN Judge(~r.o.some, "accepted")
    ELSE LET t == Instant(r.x)
         IN  IF ~r.o.some THEN Bad(<<"no result", t>>)
             ELSE IF <<r.o.ed, r.o.es, r.o.ns>> # t THEN Bad(<<"instant", t>>)
             ELSE IF Known(r.z, t) /\ r.o.off # OffsetAt(r.z, t) THEN Bad(<<"offset", OffsetAt(r.z, t)>>)
             ELSE Judge(r.o.per = (IF r.rtp THEN "Second" ELSE "Day"), "period")
=============================================================================
