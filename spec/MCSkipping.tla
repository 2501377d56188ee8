----------------------------- MODULE MCSkipping -----------------------------
(* Every text of up to Longest items, under every list of up to two tokens, built item by item. *)
EXTENDS Skipping, FiniteSets
CONSTANTS Longest
VARIABLES s, list

Items == {[k |-> "part", w |-> "5"], [k |-> "part", w |-> "may"], [k |-> "known", w |-> "sunday"],
          [k |-> "noise", w |-> "a"], [k |-> "noise", w |-> "b"], [k |-> "noise", w |-> "t"]}
Words == {"a", "b", "t", "a b", "sunday", "5"}
Lists == UNION {[1..n -> Words] : n \in 0..2}
Init == s = <<>> /\ list \in Lists
Next == /\ Len(s) < Longest
        /\ \E x \in Items : s' = Append(s, x)
        /\ UNCHANGED list
Spec == Init /\ [][Next]_<<s, list>>

Turned == [i \in 1..Len(list) |-> list[Len(list) + 1 - i]]
NoNoise(q) == SelectSeq(q, LAMBDA x : x.k # "noise")
Noisy == {i \in 1..Len(s) : s[i].k = "noise"}

(* The order and the repetitions of the list do not matter. *)
AnyOrder == TextOf(s, Turned) = TextOf(s, list) /\ (list # <<>> => TextOf(s, list \o list) = TextOf(s, list))
(* A text without noise is read under every list; parts are never left out. *)
Clean == Noisy = {} => Readable(s, list)
Parts == SelectSeq(Left(s, list), LAMBDA x : x.k = "part") = SelectSeq(s, LAMBDA x : x.k = "part")
(* A longer list reads no less. *)
More == list # <<>> => \A w \in Words : Readable(s, list) => Readable(s, Append(list, w))
(* What is read does not depend on the skipped noise. *)
Same == Readable(s, list) => TextOf(s, list) = TextOf(NoNoise(s), list)
(* Noise is read only when it is listed, alone or as a run. *)
OnlyListed == Readable(s, list) /\ Noisy # {} => \E w \in Listed(list) : w \in {"a", "b", "t", "a b"}
(* "t" is skipped when nothing is listed, and only then unless it is listed. *)
Default == \A i \in 1..Len(s) : /\ s[i] = [k |-> "noise", w |-> "t"]
                                /\ i = 1 \/ s[i-1].k # "noise"
                                /\ i = Len(s) \/ s[i+1].k # "noise"
                                /\ list # <<>> /\ "t" \notin Listed(list)
                                => ~Readable(s, list)
(* Skipping twice is skipping once. *)
Once == Readable(s, list) => Left(Left(s, list), list) = Left(s, list)
=============================================================================
