--------------------------- MODULE TraceTotality ---------------------------
(* Observations of calls with any text: r.hang, r.panic, r.slow whether it took longer than its text accounts for.   *)
EXTENDS Totality, TraceBase
TotalVerdict(r) == IF r.hang THEN Bad("the call does not return") ELSE IF r.panic # "" THEN Bad(<<"panic", r.panic>>)
                   ELSE IF r.slow THEN Bad("too slow for its text")
                   ELSE Judge(Answers(r), "neither an error alone nor a sound date")
=============================================================================
