----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* The binding between a specification and the implementation. A trace is  *)
(* a file of observations of the real code, one per line. One step of this *)
(* machine consumes one observation and asks the specification, through    *)
(* the constant operator Verdict, whether it allows it. A rejected         *)
(* observation is printed and the rest of the trace is still examined.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)      \* [ok |-> TRUE, ..], or [ok |-> FALSE, why |-> the reason]

Trace == ndJsonDeserialize(IOEnv.TRACE)

Good == [ok |-> TRUE, why |-> ""]
Bad(why) == [ok |-> FALSE, why |-> why]
Judge(b, why) == IF b THEN Good ELSE Bad(why)

VARIABLE l               \* number of observations consumed

Init == l = 0

Consume ==
    /\ l < Len(Trace)
    /\ LET v == Verdict(Trace[l + 1])
       IN  IF v.ok THEN TRUE ELSE PrintT(<<"BAD", Trace[l + 1].n, v.why, "END">>)
    /\ IF l + 1 = Len(Trace) THEN PrintT(<<"CONSUMED", l + 1>>) ELSE TRUE
    /\ l' = l + 1

Spec == Init /\ [][Consume]_l
=============================================================================
