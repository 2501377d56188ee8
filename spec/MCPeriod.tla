------------------------------ MODULE MCPeriod ------------------------------
(* Every set of things that a text can write: the laws of periods. *)
EXTENDS Period
VARIABLES method, w, rtp
Can(m) == CASE m = "relative" -> Things \ {"weekday"} [] m = "timestamp" -> {} [] OTHER -> Things \ {"decade", "week"}
Init == method \in Methods /\ w \in SUBSET Can(method) /\ rtp \in BOOLEAN
Next == \/ \E x \in Can(method) : w' = w \cup {x} /\ UNCHANGED <<method, rtp>>
        \/ rtp' = TRUE /\ UNCHANGED <<method, w>>
Spec == Init /\ [][Next]_<<method, w, rtp>>
P == PeriodFor(method, w, rtp)
Known == P \in {Periods[i] : i \in 1..6}
(* Times are told only when they are asked for and written. *)
OnlyWhenAsked == ~rtp => Rank(P) <= 3
OnlyWhenWritten == Rank(P) > 3 => (w \cap Times # {} \/ method = "timestamp")
TimeIsTold == rtp /\ method \in {"absolute", "relative"} /\ w \cap Times # {} => Rank(P) > 3
(* Writing something more never makes it coarser, except that a first part makes it the precision of that part. *)
DateOf(x) == x \cap {"decade", "year", "month", "week", "day"}
Finer == [][method' = method /\ DateOf(w) # {} /\ (method = "format" => {"year", "month"} \subseteq w) => Rank(PeriodFor(method', w', rtp')) >= Rank(P)]_<<method, w, rtp>>
Asking == [][w' = w => Rank(PeriodFor(method', w', rtp')) >= Rank(P)]_<<method, w, rtp>>
=============================================================================
