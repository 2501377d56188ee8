---------------------------- MODULE TraceNoSpace ----------------------------
(* Observations of dates without spaces: r.runs the runs of digits of the text (colons left out), r.order the *)
(* order as letters, r.demand whether day, month and year are demanded, r.off the offset expected, r.o the    *)
(* answer of the implementation.                                                                               *)
EXTENDS NoSpace, TraceBase

NsVerdict(r) ==
    LET x == Read(r.runs, r.order, r.demand)
    IN  IF x = << >> THEN Judge(~r.o.some, "accepted")
        ELSE IF ~r.o.some THEN Bad(<<"no date", x[1]>>)
        ELSE IF <<r.o.y, r.o.mo, r.o.d, r.o.h, r.o.mi, r.o.s, r.o.ns>> # <<x[1].Y, x[1].m, x[1].d, x[1].H, x[1].M, x[1].S, 0>>
             THEN Bad(<<"date", x[1]>>)
        ELSE IF r.o.per # "Day" THEN Bad("period")
        ELSE Judge(r.o.off = r.off, "offset")
=============================================================================
