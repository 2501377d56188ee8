-------------------------- MODULE MCSearchLanguage --------------------------
(***************************************************************************)
(* Every selection of three languages with every alphabet over three letters,  *)
(* every text over them, and every knowledge of its words.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Langs, Letters, MaxKnown
VARIABLES alpha, c, cps, knows, numbers

RankIn(l) == CASE l = "en" -> 0 [] l = "fr" -> 1 [] OTHER -> 2
AlphaIn(l) == alpha[l]
Plain(l) == l
L == INSTANCE SearchLanguage WITH Alphabet <- AlphaIn, Rank <- RankIn, LanguageOf <- Plain, All <- Langs

Seqs(n) == UNION {[1..k -> Langs] : k \in 0..n}
Init == /\ alpha \in [Langs -> SUBSET Letters]
        /\ c \in [locales : {<<>>}, langs : Seqs(2), detect : {<<>>}, deflangs : {<<>>, <<"de">>}, given : BOOLEAN]
        /\ cps \in {s \cup d : s \in SUBSET Letters, d \in {{}, {48}}}
        /\ knows \in [Langs -> 0..MaxKnown]
        /\ numbers \in 0..1
Next == UNCHANGED <<alpha, c, cps, knows, numbers>>
Spec == Init /\ [][Next]_<<alpha, c, cps, knows, numbers>>

Answer == L!SearchIn(c, cps, knows, numbers)
Sel == IF c.langs = <<>> THEN Langs ELSE L!ElemsOf(c.langs)
Turned == [c EXCEPT !.langs = [i \in 1..Len(c.langs) |-> c.langs[Len(c.langs) + 1 - i]]]

Selected == Answer \in Sel \/ Answer = L!Fallback(c)
(* The order and the repetitions of the list do not matter unless they are asked to. *)
AnyOrder == ~c.given => L!SearchIn(Turned, cps, knows, numbers) = Answer
Doubled == [c EXCEPT !.langs = c.langs \o c.langs]
AnyCount == c.langs # <<>> => L!SearchIn(Doubled, cps, knows, numbers) = Answer
(* A language that alone knows words of the text, and all of whose letters others use as well, is not passed over. *)
Knower == \A l \in Sel : (/\ knows[l] > 0 /\ \A k \in Sel \ {l} : knows[k] < knows[l]
                          /\ L!Uses(l, cps) # {} /\ L!Own(L!Considered(c), cps) = {} /\ ~(cps \subseteq L!Common))
                         => Answer = l
(* Letters that one language has for itself decide, when no other has such letters as well. *)
Alone(l) == \E x \in cps \cap alpha[l] : \A k \in Sel \ {l} : x \notin alpha[k]
Letter == \A l \in Sel : Alone(l) /\ (\A k \in Sel \ {l} : ~Alone(k)) => Answer = l
NoLetters == cps \subseteq L!Common => Answer \in Sel
=============================================================================
