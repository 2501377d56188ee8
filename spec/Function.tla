------------------------------ MODULE Function ------------------------------
(***************************************************************************)
(* The library as a function: what it has answered to a question once is its *)
(* answer forever, on every parser, in every process, after every history     *)
(* and whatever else is going on. The state is what is known of it so far.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NoAnswer == [none |-> TRUE]
(* What is known before anything was asked. *)
Unasked == <<>>
IsAsked(memo, q) == q \in DOMAIN memo
Agrees(memo, q, a) == ~IsAsked(memo, q) \/ memo[q] = a
Learn(memo, q, a) == IF IsAsked(memo, q) THEN memo ELSE memo @@ (q :> a)
=============================================================================
