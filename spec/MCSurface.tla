------------------------------ MODULE MCSurface ------------------------------
(* Every sequence of rewritings of a small text: another digit script, the other case, another kind of space, a doubled    *)
(* space, a space around it. Its canonical text never changes, and it is its own canonical text.                             *)
EXTENDS Surface, TLC
CONSTANTS Longest
VARIABLES text, canon
Small == {65, 97, 49, 1633, 32, 12288}
Texts == UNION {[1..k -> {97, 49, 32}] : k \in 0..2}
Init == text \in Texts /\ canon = Canon(text)
Rewrite == \E i \in 1..Len(text) : \E c \in Small : Char(c) = Char(text[i]) /\ text' = [text EXCEPT ![i] = c]
Double == Len(text) < Longest /\ \E i \in 1..Len(text) : \E c \in {32, 12288} : Char(text[i]) = 32 /\ text' = Put(text, i, c)
Pad == Len(text) < Longest /\ \E c \in {32, 12288} : \E i \in {1, Len(text) + 1} : text' = Put(text, i, c)
Next == (Rewrite \/ Double \/ Pad) /\ canon' = canon
Same == Canon(text) = canon
Itself == Canon(canon) = canon
(* Letters and digits stay in their places among each other. *)
Letters(t) == SelectSeq(t, LAMBDA c : Char(c) # 32)
Kept == Len(Letters(text)) = Len(Letters(canon))
Spec == Init /\ [][Next]_<<text, canon>>
=============================================================================
