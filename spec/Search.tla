------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* Finding the dates of a text. A text is a sequence of tokens:            *)
(*    0   a word that says nothing about dates                             *)
(*    1   the end of a sentence or of a line                               *)
(*    1+j the j-th date phrase (j = 1, 2, ..)                              *)
(* A reader goes through it once. It gathers date phrases in a chunk; a    *)
(* word or the end of a sentence closes the chunk, and what was in it is   *)
(* found: which phrase, and the base that it is understood by. The base 0  *)
(* is the moment of reference, the base b > 0 the date of phrase b. When   *)
(* the caller gave a moment of reference every phrase is understood by it; *)
(* otherwise by the last phrase before it that says a date by itself.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Prose == 0
Stop == 1
IsPhrase(t) == t > 1
PhraseOf(t) == t - 1

Blank == [chunk |-> <<>>, found |-> <<>>, base |-> 0]

(* Closes the chunk: each of its phrases is found, in order. *)
RECURSIVE Close(_, _, _)
Close(s, rel, given) ==
    IF s.chunk = <<>> THEN s
    ELSE LET p == Head(s.chunk)
         IN  Close([chunk |-> Tail(s.chunk),
                    found |-> Append(s.found, [p |-> p, b |-> s.base]),
                    base  |-> IF given \/ rel[p] THEN s.base ELSE p], rel, given)

(* One token. *)
Read(s, t, rel, given) ==
    IF IsPhrase(t) THEN [s EXCEPT !.chunk = Append(@, PhraseOf(t))] ELSE Close(s, rel, given)

RECURSIVE ReadAll(_, _, _, _)
ReadAll(s, text, rel, given) ==
    IF text = <<>> THEN Close(s, rel, given) ELSE ReadAll(Read(s, Head(text), rel, given), Tail(text), rel, given)

(* What a search finds in a text. *)
Found(text, rel, given) == ReadAll(Blank, text, rel, given).found

-----------------------------------------------------------------------------
(* Where the matches are: each is a piece of the text, after the end of the one before. Texts and matches are    *)
(* sequences of characters, without the white space.                                                              *)
At(text, m, i) == i + Len(m) - 1 <= Len(text) /\ SubSeq(text, i, i + Len(m) - 1) = m

Places(text, m, from) == {i \in from..(Len(text) - Len(m) + 1) : At(text, m, i)}

First(s) == CHOOSE i \in s : \A j \in s : i <= j

(* The earliest place for every match in turn leaves the most room for the others. *)
RECURSIVE Placed(_, _, _)
Placed(text, ms, from) ==
    IF ms = <<>> THEN TRUE
    ELSE LET s == Places(text, Head(ms), from)
         IN  Head(ms) # <<>> /\ s # {} /\ Placed(text, Tail(ms), First(s) + Len(Head(ms)))
=============================================================================
