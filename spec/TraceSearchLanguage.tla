------------------------ MODULE TraceSearchLanguage ------------------------
(* Observations of searches: r.c the selection, r.cps, r.knows and r.numbers what is known of the text, r.lang the      *)
(* language that the search reports, r.err whether it failed, r.locs the locales of its matches, r.found and r.alone     *)
(* the matches of the search and of a search with the reported language.                                                  *)
EXTENDS Locales, TraceBase

Alphabets == JsonDeserialize("alphabets.json")
L == INSTANCE SearchLanguage WITH
        Alphabet <- LAMBDA a : {Alphabets[a][i] : i \in 1..Len(Alphabets[a])},
        Rank <- RankOf, LanguageOf <- LAMBDA a : Locales[a].lang, All <- DOMAIN Alphabets

SeVerdict(r) ==
    LET want == L!SearchIn(r.c, {r.cps[i] : i \in 1..Len(r.cps)}, r.knows, r.numbers)
    IN  IF r.lang # want THEN Bad(<<"language", want>>)
        ELSE IF r.err # (want = "") THEN Bad("error")
        ELSE IF \E i \in 1..Len(r.locs) : r.locs[i] # want THEN Bad("locale of a match")
        ELSE Judge(r.found = r.alone, "not what the search in that language finds")
=============================================================================
