--------------------------- MODULE TraceValidity ---------------------------
(* Observations of entry points: r.e, r.v the call, r.err whether there was an error, r.some whether there was a result *)
(* (a date, or matches), r.nolocale whether no locale is left by the selection (a region that no language has), r.strong *)
(* whether the text has to be understood by a call that is accepted.                                                         *)
EXTENDS Validity, TraceBase

NoLocales(r) == r.e = "parse" /\ Allowed(r.v.sel) = {}

ValidVerdict(r) ==
    IF Refused(r.e, r.v) THEN Judge(r.err /\ ~r.some, IF r.err THEN "a result beside the error" ELSE "accepted")
    ELSE IF NoLocales(r) THEN Judge(~r.some, "a result without locales")
    ELSE IF r.strong THEN Judge(~r.err /\ r.some, "refused")
    ELSE Judge(r.e # "parse" \/ r.err # r.some, "an error beside a result")
=============================================================================
