--------------------------- MODULE TraceVocabulary ---------------------------
(* Observations of words: entry r.i of the table (r.e is the entry as the harness saw it) was asked in the      *)
(* locale r.at. A month stands in the date r.d <month> r.y (r.d = 0: no day); a weekday stands alone; a half     *)
(* of the day stands after the clock r.h:r.mi, on the day r.today; a phrase with amount r.k is seen from r.now,   *)
(* in the zone r.z. r.o is what the implementation answered.                                                      *)
EXTENDS Vocabulary, TraceBase

Word(r, e) ==
    LET got == <<r.o.ed, r.o.es, r.o.ns>>
        day == DayNum(r.o.y, r.o.mo, r.o.d)
    IN  CASE e.k = "month" ->
               IF <<r.o.y, r.o.mo>> # <<r.y, e.v>> THEN Bad(<<"month", e.v>>)
               ELSE IF r.d # 0 /\ r.o.d # r.d THEN Bad(<<"day", r.d>>)
               ELSE Judge(r.o.per = (IF r.d = 0 THEN "Month" ELSE "Day"), "period")
          [] e.k = "day" ->
               IF WeekdayOf(day) # e.v THEN Bad(<<"weekday", e.v>>)
               ELSE IF day - r.today > 7 \/ r.today - day > 7 THEN Bad("not in this week")
               ELSE Judge(r.o.per = "Day" /\ <<r.o.h, r.o.mi, r.o.s>> = <<0, 0, 0>>, "time or period")
          [] e.k = "half" ->
               IF <<r.o.h, r.o.mi, r.o.s, r.o.ns>> # <<HourOf(e.v, r.h), r.mi, 0, 0>> THEN Bad(<<"time", HourOf(e.v, r.h)>>)
               ELSE Judge(day = r.today /\ r.o.per = "Day", "day or period")
          [] OTHER ->
               LET ts == PhraseInstants(e, r.k, <<r.now.ed, r.now.es, r.now.ns>>, r.z, r.pem)
               IN  IF ~(got \in ts) THEN Bad(<<"instant", ts>>)
                   ELSE Judge(r.o.off = OffsetAt(r.z, got), "offset")

VocVerdict(r) ==
    LET e == Table[r.i]
    IN  IF e.loc # r.e.loc \/ e.a # r.e.a \/ e.b # r.e.b THEN Bad("not this entry")
        ELSE IF ~Speaks(r.at, e) THEN Bad("not a word of this locale")
        ELSE IF e.k \in {"rel", "word"} /\ ~(\E j \in 1..Len(e.ks) : e.ks[j] = r.k) THEN Bad("not an amount of this phrase")
        ELSE IF ~r.o.some THEN Bad("no result")
        ELSE Word(r, e)
=============================================================================
