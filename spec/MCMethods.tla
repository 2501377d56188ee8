------------------------------ MODULE MCMethods ------------------------------
(* Every short sequence of methods and every way in which two locales can be read: the laws of the choice. *)
EXTENDS Methods
CONSTANTS Used, Longest
VARIABLES types, read
Seqs == UNION {[1..k -> Used] : k \in 0..Longest}
Ans(S, l) == [m \in 1..6 |-> IF (m - 1) \in S THEN [some |-> TRUE, by |-> m - 1, l |-> l] ELSE [some |-> FALSE]]
Init == types \in Seqs /\ \E S, T \in SUBSET Used : read = <<Ans(S, 1), Ans(T, 2)>>
Next == /\ Len(types) < Longest /\ \E m \in Used : types' = Append(types, m)       \* one more method at the end
        /\ UNCHANGED read
Spec == Init /\ [][Next]_<<types, read>>
A == MethodAnswer(types, read)
Elems(s) == {s[i] : i \in 1..Len(s)}
OnlyEnabled == A.some /\ types # <<>> => A.by \in Elems(types)
IfAny == (\E l \in 1..2 : \E m \in Elems(InUse(types)) : read[l][m + 1].some) <=> A.some
LocaleFirst == A.some /\ A.l = 2 => \A m \in Elems(InUse(types)) : ~read[1][m + 1].some
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
OrderOnlyChooses == types # <<>> => MethodAnswer(Reversed(types), read).some = A.some
(* One more method never takes an answer of the same locale away from those before it. *)
Prior == [][types # <<>> /\ A.some /\ A.l = 1 => MethodAnswer(types', read) = A]_<<types, read>>
=============================================================================
