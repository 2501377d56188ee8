----------------------------- MODULE TraceSearch -----------------------------
(* Observations of searches.                                                                                       *)
(* r.k = "plan": a text made after r.plan; r.ph[j] the j-th phrase: its characters t, whether it is relative, and  *)
(*   in a[b+1] what Parse says of it alone with base b. r.f the matches: characters t, date d, language loc.         *)
(* r.k = "any": any text, its characters r.text, and the matches r.f.                                               *)
(* r.k = "law": the matches r.f of a whole and, in r.parts, those of its parts.                                     *)
(* r.k = "lang": r.f from Search, r.parts from SearchWithLanguage with the language that Search names; r.among the  *)
(*   languages that it may name.                                                                                     *)
EXTENDS Search, TraceBase

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Match(m) == [t |-> m.t, d |-> m.d]
Matches(f) == [i \in 1..Len(f) |-> Match(f[i])]

Wanted(r) ==
    LET f == Found(r.plan, [j \in 1..Len(r.ph) |-> r.ph[j].rel], r.given)
    IN  [i \in 1..Len(f) |-> [t |-> r.ph[f[i].p].t, d |-> r.ph[f[i].p].a[f[i].b + 1]]]

SearchVerdict(r) ==
    IF \E i \in 1..Len(r.f) : r.f[i].loc # r.lang THEN Bad("language")
    ELSE CASE r.k = "plan" -> Judge(Matches(r.f) = Wanted(r), <<"not the matches wanted", [i \in 1..Len(Wanted(r)) |-> Wanted(r)[i].d]>>)
           [] r.k = "any"  -> Judge(Placed(r.text, [i \in 1..Len(r.f) |-> r.f[i].t], 1) /\ \A i \in 1..Len(r.f) : r.f[i].d.some,
                                    "matches that are not pieces of the text in order, or without a date")
           [] r.k = "law"  -> Judge(Matches(r.f) = Matches(Concat(r.parts)), <<"not the matches of the parts", Len(Concat(r.parts))>>)
           [] r.k = "lang" -> IF r.among # <<>> /\ ~\E i \in 1..Len(r.among) : r.among[i] = r.lang THEN Bad("a language that was not offered")
                              ELSE Judge(Matches(r.f) = Matches(Concat(r.parts)), "not the matches of that language")
=============================================================================
