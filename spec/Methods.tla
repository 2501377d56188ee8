------------------------------- MODULE Methods -------------------------------
(***************************************************************************)
(* Which parsing method answers. A call has a sequence of methods (numbers   *)
(* 0 timestamp, 1 negative timestamp, 2 relative, 3 custom format,            *)
(* 4 absolute, 5 no spaces), a sequence of locales in the order of trial, and *)
(* for each locale and method it is known what that method alone answers in   *)
(* this locale (read[l][m + 1], a record with some = FALSE if nothing).        *)
(***************************************************************************)
EXTENDS Integers, Sequences

All == <<0, 1, 2, 3, 4, 5>>
Method == 0..5
InUse(types) == IF types = <<>> THEN All ELSE types
InvalidTypes(types) == \E i \in 1..Len(types) : types[i] \notin Method

(* The first method in the order of the call that answers in this locale, 0-based, or -1. *)
Answering(types, answers) ==
    LET is == {i \in 1..Len(types) : answers[types[i] + 1].some}
    IN  IF is = {} THEN -1 ELSE types[CHOOSE i \in is : \A j \in is : i <= j]

(* The locale (its place) and the method that answer: all methods are tried in a locale before the next locale. *)
Winner(types, read) ==
    LET ls == {l \in 1..Len(read) : Answering(InUse(types), read[l]) # -1}
    IN  IF ls = {} THEN <<0, -1>>
        ELSE LET l == CHOOSE x \in ls : \A y \in ls : x <= y IN <<l, Answering(InUse(types), read[l])>>

MethodAnswer(types, read) ==
    LET w == Winner(types, read) IN IF w[1] = 0 THEN [some |-> FALSE] ELSE read[w[1]][w[2] + 1]
=============================================================================
