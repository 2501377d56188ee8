------------------------------ MODULE TraceZone ------------------------------
(* Observations of time zones. r.x the zone written in the text, r.def the default zone, r.ref the zone of *)
(* the reference, r.kind the kind of the call:                                                              *)
(*   "abs"  an absolute date whose wall clock is r.w (ed, es, ns); "fmt" the same by a custom format         *)
(*   "rel"  a relative date, with the fields of TraceRelative                                               *)
(*   "pop"  PopTzOffset on a text that is r.pre before the zone: r.out, r.num                               *)
EXTENDS TextZone, TraceBase

Inst(w) == <<w.ed, w.es, w.ns>>

AbsVerdict(r) ==
    LET z   == IF r.kind = "fmt" THEN FormatZone(r.x, r.def) ELSE ShownIn(r.x, r.def, r.ref)
        w   == Inst(r.w)
        got == Inst(r.o)
    IN  IF ~r.o.some THEN Bad("no result")
        ELSE IF ~(got \in Denoted(z, w)) THEN Bad(<<"instant", Denoted(z, w)>>)
        ELSE IF Instants(z, w) = {} THEN Judge(r.o.off \in Offsets(z), "offset")
        ELSE IF r.o.off # OffsetAt(z, got) THEN Bad(<<"offset", OffsetAt(z, got)>>)
        ELSE Judge(Shift(got, r.o.off) = w, "wall clock")

RelVerdict(r) ==
    LET a   == IF r.ph = "" THEN r.a ELSE PhraseAmount(r.ph)
        dir == IF r.ph = "" THEN r.dir ELSE PhraseDir(r.ph)
        z   == ShownIn(r.x, r.def, r.ref)
        ts  == Moved(Inst(r.now), z, Carried(a), dir, r.src, r.pem, r.t)
        got == Inst(r.o)
    IN  IF ~r.o.some THEN Bad("no result")
        ELSE IF ~(got \in ts) THEN Bad(<<"instant", ts>>)
        ELSE Judge(r.o.off = OffsetAt(z, got), <<"offset", OffsetAt(z, got)>>)

PopVerdict(r) ==
    IF ~Recognised(r.x) THEN Judge(r.out = r.pre /\ r.num = 0, "a zone was found where none is written")
    ELSE IF r.num # TextOffset(r.x) THEN Bad(<<"offset", TextOffset(r.x)>>)
    ELSE Judge(r.out = r.pre, "the zone was not removed, or more than it")

ZoneVerdict(r) ==
    CASE r.kind \in {"abs", "fmt"} -> AbsVerdict(r)
      [] r.kind = "rel" -> RelVerdict(r)
      [] OTHER          -> PopVerdict(r)
=============================================================================
