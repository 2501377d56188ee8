---------------------------- MODULE TraceMethods ----------------------------
(* Observations: r.types the methods, r.read what each method alone answers in each locale, r.raw whether a custom *)
(* format matches the raw text, r.alone the answer to that format; r.sure and r.never the methods that have to      *)
(* understand the text and those that cannot; r.o the answer and r.err whether there was an error.                    *)
EXTENDS Methods, TraceBase

Understood(read, m) == \E k \in 1..Len(read) : read[k][m + 1].some

MethodVerdict(r) ==
    IF InvalidTypes(r.types) THEN Judge(r.err /\ ~r.o.some, "an unknown method is accepted")
    ELSE IF r.raw THEN Judge(r.o = r.alone /\ r.o.some /\ r.o.loc = "", "the custom format does not come first")
    ELSE IF \E i \in 1..Len(r.sure) : ~Understood(r.read, r.sure[i]) THEN Bad("a method does not understand its own text")
    ELSE IF \E i \in 1..Len(r.never) : Understood(r.read, r.never[i]) THEN Bad("a method understands the text of another one")
    ELSE LET e == MethodAnswer(r.types, r.read)
         IN  IF e.some # r.o.some THEN Bad(<<"answer", Winner(r.types, r.read)>>)
             ELSE IF ~e.some THEN Judge(r.err, "neither date nor error")
             ELSE Judge(r.o = e, <<"answer", Winner(r.types, r.read)>>)
=============================================================================
