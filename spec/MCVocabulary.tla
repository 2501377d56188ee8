---------------------------- MODULE MCVocabulary ----------------------------
(***************************************************************************)
(* The table, one locale after the other: every entry is well formed and no *)
(* word of a language has two meanings of one kind. With each entry goes a   *)
(* walk of the meaning it gives to time: ahead is later, ago is earlier, the *)
(* current unit stays.                                                       *)
(***************************************************************************)
EXTENDS Vocabulary, FiniteSets, TLC
VARIABLES i, from, now       \* the entries from..i are those of one locale so far; a moment

Rows == Table
N == Len(Rows)
Init == i = 1 /\ from = 1 /\ now = <<16436, 45000, 0>>
Next == /\ i < N
        /\ i' = i + 1
        /\ from' = IF Rows[i + 1].loc = Rows[i].loc THEN from ELSE i + 1
        /\ now' = <<now[1] + 17, (now[2] + 8123) % 86400, 0>>

e == Rows[i]
Formed == /\ e.k \in {"month", "day", "rel", "word", "half"}
          /\ (e.k = "half") => e.v \in 1..2
          /\ (e.k = "month") => e.v \in 1..12
          /\ (e.k = "day") => e.v \in 1..7
          /\ (e.k \in {"rel", "word"}) => e.v \in {-1, 0, 1} /\ e.u \in {"year", "month", "week", "day", "hour", "minute", "second"} /\ Len(e.ks) > 0
          /\ (e.k = "rel") => e.v # 0
          /\ (e.k = "word") => Len(e.ks) = 1 /\ (e.v = 0 <=> e.ks[1] = 0)
Class(x) == IF x \in {"rel", "word"} THEN "rel" ELSE x
Meaning(x) == <<x.v, x.u, IF x.k = "word" THEN x.ks[1] ELSE 0>>
(* "this minute" and "now" are the same moment: a word may name the current of two units. *)
OneMeaning == \A j \in from..(i - 1) :
                 LET x == Rows[j]
                 IN  (x.a = e.a /\ x.b = e.b /\ Class(x.k) = Class(e.k) /\ x.k = e.k) =>
                     \/ Meaning(x) = Meaning(e)
                     \/ x.v = 0 /\ e.v = 0

UTC == [rule |-> "fixed", std |-> 0]
Direction == (e.k \in {"rel", "word"}) =>
    \A j \in 1..Len(e.ks) :
       \A t \in PhraseInstants(e, e.ks[j], now, UTC, FALSE) :
          CASE e.v = 1 -> Later(t, now)
            [] e.v = -1 -> Later(now, t)
            [] OTHER -> t = now
Spec == Init /\ [][Next]_<<i, from, now>>
=============================================================================
