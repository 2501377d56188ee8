---------------------------- MODULE TraceRelative ----------------------------
(* Observations of relative dates. r.ph a phrase or "", else r.a and r.dir; r.t the time of day; r.now the *)
(* reference as instant; r.z the zone the result has to be shown in; r.src, r.pem, r.rtp the            *)
(* configuration. r.o is what the implementation answered.                                                *)
EXTENDS Relative, TraceBase

RelVerdict(r) ==
    LET a   == IF r.ph = "" THEN r.a ELSE PhraseAmount(r.ph)
        dir == IF r.ph = "" THEN r.dir ELSE PhraseDir(r.ph)
        v   == Carried(a)
        n   == <<r.now.ed, r.now.es, r.now.ns>>
        ts  == Moved(n, r.z, v, dir, r.src, r.pem, r.t)
        got == <<r.o.ed, r.o.es, r.o.ns>>
    IN  IF ~r.o.some THEN Bad("no result")
        ELSE IF ~(got \in ts) THEN Bad(<<"instant", ts, v>>)
        ELSE IF r.o.off # OffsetAt(r.z, got) THEN Bad(<<"offset", OffsetAt(r.z, got)>>)
        ELSE Judge(r.o.per = RelPeriod(v, r.t, r.rtp), <<"period", RelPeriod(v, r.t, r.rtp)>>)
=============================================================================
