------------------------------ MODULE Charsets ------------------------------
(***************************************************************************)
(* A parser keeps the characters that are unique to each language of its last *)
(* search. Every history of searches with any languages, concurrent ones      *)
(* included: what a search uses is what it would compute on its own. (A        *)
(* search takes its table under the lock of the parser and keeps the table it   *)
(* took.)                                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Lang, Char, Procs,
          Longest,  \* the length of such a list
          Once      \* the repetitions in the list of the caller are dropped first
VARIABLES table, pc, want, took, charset

Lists == UNION {[1..k -> Lang] : k \in 1..Longest}
Of(ls) == {ls[i] : i \in 1..Len(ls)}

Unique(ls) == [l \in ls |-> charset[l] \ UNION {charset[k] : k \in ls \ {l}}]

Init == /\ table = [l \in {} |-> {}]
        /\ charset \in [Lang -> SUBSET Char]
        /\ pc = [p \in Procs |-> "idle"]
        /\ want = [p \in Procs |-> <<>>]
        /\ took = [p \in Procs |-> [l \in {} |-> {}]]

(* The caller gives a list, which may name a language twice. *)
Start(p) == /\ pc[p] = "idle"
            /\ \E ls \in Lists : want' = [want EXCEPT ![p] = ls]
            /\ pc' = [pc EXCEPT ![p] = "asks"]
            /\ UNCHANGED <<table, took, charset>>

(* One critical section: the table is replaced when it is not for these languages. *)
Stale(ls) == \/ Cardinality(DOMAIN table) # (IF Once THEN Cardinality(Of(ls)) ELSE Len(ls))
             \/ \E l \in Of(ls) : l \notin DOMAIN table
Take(p) == /\ pc[p] = "asks"
           /\ table' = IF Stale(want[p]) THEN Unique(Of(want[p])) ELSE table
           /\ took' = [took EXCEPT ![p] = table']
           /\ pc' = [pc EXCEPT ![p] = "uses"]
           /\ UNCHANGED <<want, charset>>

Finish(p) == /\ pc[p] = "uses" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<table, want, took, charset>>

Next == \E p \in Procs : Start(p) \/ Take(p) \/ Finish(p)
Spec == Init /\ [][Next]_<<table, pc, want, took, charset>> /\ \A p \in Procs : WF_<<table, pc, want, took, charset>>(Take(p) \/ Finish(p))

AsAlone == \A p \in Procs : pc[p] = "uses" => took[p] = Unique(Of(want[p]))
Returns == \A p \in Procs : pc[p] = "asks" ~> pc[p] = "idle"
=============================================================================
