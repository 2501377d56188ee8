------------------------------- MODULE MCDemand -------------------------------
(* All demands on all texts: the laws that the answer with a demand obeys. *)
EXTENDS Demand
VARIABLES has, strict, req
Reqs == UNION {[1..k -> Part] : k \in 0..3}
Init == has \in SUBSET Part /\ strict \in BOOLEAN /\ req \in Reqs
Next == \/ \E p \in Part : has' = has \cup {p} /\ UNCHANGED <<strict, req>>      \* a part is written as well
        \/ \E p \in Part : Len(req) < 3 /\ req' = Append(req, p) /\ UNCHANGED <<has, strict>>
        \/ strict' = TRUE /\ UNCHANGED <<has, req>>
Spec == Init /\ [][Next]_<<has, strict, req>>
Free == [some |-> TRUE]
A == Answer(Free, has, strict, req)
Complete == has = Part => A = Free
StrictMeansAll == strict /\ A.some => has = Part
RequiredMeansWritten == A.some => \A i \in 1..Len(req) : req[i] \in has
NothingDemanded == ~strict /\ req = <<>> => A = Free
(* Writing more never loses an answer, demanding more never gains one. *)
Monotone == [][/\ (has \subseteq has' /\ strict' = strict /\ req' = req /\ A.some => Answer(Free, has', strict', req').some)
               /\ (has' = has /\ ~A.some => ~Answer(Free, has', strict', req').some)]_<<has, strict, req>>
=============================================================================
