--------------------------- MODULE SearchLanguage ---------------------------
(***************************************************************************)
(* In which language a text is searched. The caller selects languages        *)
(*    c.locales, c.langs, c.detect, c.deflangs, c.given                       *)
(* as for a date (c.detect is what the detection function says). Of the text  *)
(* is known                                                                    *)
(*    cps      its characters (code points, small letters, without periods)    *)
(*    knows    how many of its words each selected language knows              *)
(*    numbers  how many numbers it has                                          *)
(* A text without letters is searched in the first language. A letter that     *)
(* only one of the selected languages uses decides for it (for the first such   *)
(* language); otherwise the languages that use any letter of the text compete:  *)
(* the one that knows the most words, the earlier one of equals. When none of    *)
(* them knows anything, the first of the default languages, else there is no     *)
(* language.                                                                      *)
(* Alphabet[l] is the set of letters of the words of language l.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Alphabet(_), Rank(_), LanguageOf(_), All

ElemsOf(s) == {s[i] : i \in 1..Len(s)}

(* Digits, the marks of numeric dates, the space, and the letters of AM and PM belong to every language. *)
Common == (48..57) \cup {40, 41, 45, 47, 46, 44, 58, 39, 32, 92} \cup {97, 109, 112}

RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET r == Distinct(SubSeq(s, 1, Len(s) - 1))
                    IN  IF s[Len(s)] \in ElemsOf(r) THEN r ELSE Append(r, s[Len(s)])

RECURSIVE ByRank(_)
ByRank(set) == IF set = {} THEN <<>>
               ELSE LET f == CHOOSE l \in set : \A k \in set : Rank(l) <= Rank(k)
                    IN  <<f>> \o ByRank(set \ {f})

Asked(c) == IF c.locales # <<>> THEN [i \in 1..Len(c.locales) |-> LanguageOf(c.locales[i])]
            ELSE IF c.langs # <<>> THEN c.langs ELSE c.detect

(* The languages in the order in which they are considered. *)
Considered(c) == IF Asked(c) = <<>> THEN ByRank(All)
                 ELSE IF c.given THEN Distinct(Asked(c)) ELSE ByRank(ElemsOf(Asked(c)))

Uses(l, cps) == Alphabet(l) \cap cps
Others(l, ls) == UNION {Alphabet(k) : k \in ElemsOf(ls) \ {l}}
Own(ls, cps) == {i \in 1..Len(ls) : Uses(ls[i], cps) # {} /\ ~(Uses(ls[i], cps) \subseteq Others(ls[i], ls))}
Least(s) == CHOOSE i \in s : \A j \in s : i <= j

Best(ls, set, knows) ==
    LET top == CHOOSE n \in {knows[ls[i]] : i \in set} : \A i \in set : knows[ls[i]] <= n
    IN  ls[Least({i \in set : knows[ls[i]] = top})]

Fallback(c) == IF c.deflangs = <<>> THEN "" ELSE c.deflangs[1]

SearchIn(c, cps, knows, numbers) ==
    LET ls == Considered(c)
    IN  IF cps \subseteq Common THEN ls[1]
        ELSE LET own == Own(ls, cps)
                 some == {i \in 1..Len(ls) : Uses(ls[i], cps) # {}}
                 able == {i \in some : knows[ls[i]] > 0 \/ numbers > 0}
             IN  IF own # {} THEN ls[Least(own)]
                 ELSE IF Cardinality(some) = 1 THEN ls[Least(some)]
                 ELSE IF able = {} THEN Fallback(c)
                 ELSE Best(ls, able, knows)
=============================================================================
