------------------------------ MODULE Skipping ------------------------------
(***************************************************************************)
(* Words to skip. A text is a sequence of items [k, w]: a part of a date     *)
(* ("part"), a word of the language that may be left out ("known"), or a     *)
(* word that no language knows ("noise"). Words of noise that follow each     *)
(* other are one token. A token on the caller's list (or "t" when the caller  *)
(* gives none) is as if it were not there; noise that is not on the list       *)
(* makes the text unreadable.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Listed(list) == IF list = <<>> THEN {"t"} ELSE {list[i] : i \in 1..Len(list)}

RECURSIVE Tokens(_)
Tokens(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET x == s[Len(s)]
             r == Tokens(SubSeq(s, 1, Len(s) - 1))
             e == r[Len(r)]
         IN  IF x.k = "noise" /\ r # <<>> /\ e.k = "noise"
             THEN [r EXCEPT ![Len(r)] = [e EXCEPT !.w = @ \o " " \o x.w]]
             ELSE Append(r, x)

Skipped(t, list) == t.k \in {"noise", "known"} /\ t.w \in Listed(list)

Left(s, list) == SelectSeq(Tokens(s), LAMBDA t : ~Skipped(t, list))
Readable(s, list) == \A i \in 1..Len(Left(s, list)) : Left(s, list)[i].k # "noise"

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1].w ELSE Join(SubSeq(s, 1, Len(s) - 1)) \o " " \o s[Len(s)].w
TextOf(s, list) == Join(Left(s, list))
=============================================================================
