--------------------------- MODULE TraceSelection ---------------------------
(***************************************************************************)
(* Histories of calls on parsers. A record is a call: r.new whether it is the *)
(* first one on its parser, r.c the configuration, r.can and r.forced what is *)
(* known of the text, r.raw whether a custom format matches the raw text,     *)
(* r.keeps whether it is a call that never looks for locales (a search),      *)
(* r.o the answer and r.alone the answer of the locale of r.o on its own.      *)
(***************************************************************************)
EXTENDS Selection, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, mem

Init == n = 0 /\ mem = <<>>

Report(why) == PrintT(<<"BAD", Trace[n + 1].n, why, "END">>)
Claim(b, why) == IF b THEN TRUE ELSE Report(why)

Step ==
    /\ n < Len(Trace) /\ n' = n + 1
    /\ LET r   == Trace[n + 1]
           m   == IF r.new THEN <<>> ELSE mem
           can == Elems(r.can)
           frc == Elems(r.forced) \cup can
       IN  IF r.keeps THEN mem' = m
           ELSE IF r.raw THEN Claim(r.o.some /\ r.o.loc = "", "custom format of the raw text") /\ mem' = m
           ELSE IF Invalid(r.c) THEN Claim(r.err /\ ~r.o.some, "invalid locales or languages are accepted") /\ mem' = m
           ELSE /\ mem' = IF r.o.some THEN Remember(m, r.c, r.o.loc) ELSE m
                /\ LET ok == Answers(m, r.c, can, frc)
                       got == IF r.o.some THEN r.o.loc ELSE ""
                   IN  IF got \notin ok THEN Report(<<"locale", ok, "memory", m>>)
                       ELSE IF r.o.some THEN Claim(r.o = r.alone, "not the answer of that locale")
                       ELSE Claim(r.err, "no result and no error")
    /\ IF n + 1 = Len(Trace) THEN PrintT(<<"CONSUMED", n + 1>>) ELSE TRUE

Spec == Init /\ [][Step]_<<n, mem>>
=============================================================================
