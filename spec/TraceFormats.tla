---------------------------- MODULE TraceFormats ----------------------------
(* Observations of custom formats: r.x the tokens of the text, r.ls the layouts, r.g reference and preferences, *)
(* r.off the offset that the result has to carry, r.raw whether the names are English ones, so that the text is  *)
(* read as it stands, r.lang the language of the text, r.plain whether its separators survive a translation,      *)
(* r.o the answer.                                                                                                 *)
EXTENDS Formats, TraceBase

Compare(e, loc, r) ==
    IF ~e.some THEN Judge(~r.o.some, "accepted")
    ELSE IF ~r.o.some THEN Bad(<<"no date", e>>)
    ELSE IF <<r.o.y, r.o.mo, r.o.d, r.o.h, r.o.mi, r.o.s, r.o.ns>> # <<e.y, e.m, e.d, e.h, e.mi, e.s, 0>> THEN Bad(<<"date", e>>)
    ELSE IF r.o.per # e.per THEN Bad(<<"period", e>>)
    ELSE IF r.o.off # r.off THEN Bad("offset")
    ELSE Judge(r.o.loc = loc, "locale")

FmtVerdict(r) ==
    LET e == ByFormats(r.ls, r.x, r.g)
        f == ByFormats(r.ls, InFull(r.x), r.g)
    IN  IF r.raw /\ e.some THEN Compare(e, "", r)
        ELSE IF f.some /\ ~r.plain /\ ~r.o.some THEN Good
        ELSE Compare(f, r.lang, r)
=============================================================================
