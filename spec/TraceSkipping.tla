---------------------------- MODULE TraceSkipping ----------------------------
(* Observations of texts with words to skip: r.s the items, r.list the list, r.rest the text without what the list names  *)
(* and r.alone its answer, r.got the answer for the whole text, r.sure whether the rest is a date beyond doubt.           *)
EXTENDS Skipping, TraceBase

SkVerdict(r) ==
    IF r.rest # TextOf(r.s, r.list) THEN Bad(<<"asked about another text than", TextOf(r.s, r.list)>>)
    ELSE IF ~Readable(r.s, r.list) THEN Judge(~r.got.some, "a date in spite of words that nobody knows")
    ELSE IF r.sure /\ ~r.alone.some THEN Bad("no date without the words to skip")
    ELSE Judge(r.got = r.alone, "not the date of the text without the words to skip")
=============================================================================
