---------------------------- MODULE TraceLayouts ----------------------------
(* Observations of dates in the layouts of the languages: the moment r.x written in the layout of row r.i, asked *)
(* in the locale r.at with the order r.order in front of the reference r.g; r.o is the answer.                    *)
EXTENDS Layouts, TraceBase

Starts(a, b) == LET n == Len(b) IN Len(a) >= n /\ SubSeq(a, 1, n) = b

SameMoment(e, o) ==
    IF ~e.some THEN ~o.some
    ELSE /\ o.some
         /\ o.y = e.y /\ o.mo = e.m /\ o.d = e.d
         /\ o.h = e.h /\ o.mi = e.mi /\ o.s = e.s /\ o.ns = e.ns

LayVerdict(r) ==
    LET row == Rows[r.i]
        e == Resolve(Written(row, r.x), r.g)
    IN  IF row.loc # r.at THEN Bad("another locale")
        ELSE IF TextOf(row, r.x) # r.text THEN Bad(<<"text", TextOf(row, r.x)>>)
        ELSE IF ~Starts(r.order, OrderOf(row)) THEN Bad(<<"order", OrderOf(row)>>)
        ELSE IF ~SameMoment(e, r.o) THEN Bad(<<"date", e>>)
        ELSE IF e.some /\ r.o.per # e.per THEN Bad(<<"period", e>>)
        ELSE Judge(~e.some \/ r.o.off = 0, "offset")
=============================================================================
