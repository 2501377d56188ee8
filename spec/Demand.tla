------------------------------- MODULE Demand -------------------------------
(***************************************************************************)
(* Strict parsing and required parts. A text writes some of the parts day, *)
(* month and year (has); a caller may demand all of them (strict) or some  *)
(* of them (req). With the demand the text is answered exactly as without, *)
(* or, when a demanded part is not written, not at all.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Part == {"day", "month", "year"}

DemandedParts(strict, req) == (IF strict THEN Part ELSE {}) \cup {req[i] : i \in 1..Len(req)}

Met(has, strict, req) == DemandedParts(strict, req) \subseteq has

NoDate == [some |-> FALSE]

(* free: the answer without any demand *)
Answer(free, has, strict, req) == IF Met(has, strict, req) THEN free ELSE NoDate
=============================================================================
