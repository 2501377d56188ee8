--------------------------- MODULE TraceOwnership ---------------------------
(* A history of calls that are given the same data (r.d numbers them). The state is what the caller knows of its own   *)
(* data: each call must find it so and leave it so.                                                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, view
Init == n = 0 /\ view = <<>>
Found(r) == r.d \notin DOMAIN view \/ view[r.d] = r.was
Step ==
    /\ n < Len(Trace) /\ n' = n + 1
    /\ LET r == Trace[n + 1]
       IN  /\ view' = (r.d :> r.now) @@ view
           /\ IF r.hang \/ r.panic # "" THEN PrintT(<<"BAD", r.n, "no answer", "END">>)
              ELSE IF ~Found(r) THEN PrintT(<<"BAD", r.n, <<"the data changed between calls", view[r.d], r.was>>, "END">>)
              ELSE IF r.now # r.was THEN PrintT(<<"BAD", r.n, <<"the call changed it", r.was, r.now>>, "END">>) ELSE TRUE
    /\ IF n + 1 = Len(Trace) THEN PrintT(<<"CONSUMED", n + 1>>) ELSE TRUE
Spec == Init /\ [][Step]_<<n, view>>
=============================================================================
