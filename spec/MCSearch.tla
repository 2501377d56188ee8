------------------------------ MODULE MCSearch ------------------------------
(* The reader of Search against every text of at most MaxLen tokens with at most MaxPhrases phrases, each of which *)
(* is relative or not, with and without a moment of reference. The text is written while it is read.                *)
EXTENDS Search, FiniteSets

CONSTANTS MaxLen, MaxPhrases

VARIABLES text, rel, given, s

vars == <<text, rel, given, s>>

Count(x) == Cardinality({i \in 1..Len(x) : IsPhrase(x[i])})

Init == /\ text = <<>> /\ s = Blank
        /\ rel \in [1..MaxPhrases -> BOOLEAN] /\ given \in BOOLEAN

Write(t) == /\ text' = Append(text, t)
            /\ s' = Read(s, t, rel, given)
            /\ UNCHANGED <<rel, given>>

Next == /\ Len(text) < MaxLen
        /\ \/ Write(Prose)
           \/ Write(Stop)
           \/ Count(text) < MaxPhrases /\ Write(Count(text) + 2)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
F == Found(text, rel, given)

(* Every phrase is found once, in the order of the text. *)
Complete == /\ Len(F) = Count(text)
            /\ \A k \in 1..Len(F) : F[k].p = k

(* The base of a phrase: the last date before it that stands by itself. *)
Own(k) == {j \in 1..(k - 1) : ~rel[j]}
BaseOf(k) == IF given \/ Own(k) = {} THEN 0 ELSE CHOOSE j \in Own(k) : \A i \in Own(k) : i <= j
Bases == \A k \in 1..Len(F) : F[k].b = BaseOf(k)

(* What is found in a text with a moment of reference is what is found in its parts. *)
Renumber(x, k) == [i \in 1..Len(x) |-> [x[i] EXCEPT !.p = @ + k]]
Part(x, k) == [i \in 1..Len(x) |-> IF IsPhrase(x[i]) THEN x[i] - k ELSE x[i]]
Parts == given => \A i \in 1..Len(text) :
            ~IsPhrase(text[i]) =>
                LET a == SubSeq(text, 1, i)
                    c == Count(a)
                    b == Part(SubSeq(text, i + 1, Len(text)), c)
                IN  F = Found(a, rel, given) \o Renumber(Found(b, rel, given), c)

(* Words and ends of sentences add nothing. *)
Silent == LET dry == SelectSeq(text, IsPhrase) IN Found(dry, rel, given) = F

(* The reader never goes back on what it found. *)
Grows == [][SubSeq(s'.found, 1, Len(s.found)) = s.found]_vars

(* Places: pieces in order have places, and nothing that overlaps has. *)
Letters == [i \in 1..Len(text) |-> text[i]]
Pieces == \A i, j \in 1..Len(text) : i < j => Placed(Letters, <<SubSeq(Letters, 1, i), SubSeq(Letters, i + 1, j)>>, 1)
TooMuch == \A i \in 1..Len(text) : ~Placed(Letters, <<Letters, SubSeq(Letters, 1, i)>>, 1)
=============================================================================
