---------------------------- MODULE TraceFunction ----------------------------
(* Observations of calls in any order and from any process: r.q the number of the question, r.a everything that the *)
(* answer says. A question with r.free need not be answered alike (a parser that tries the locales it used before).        *)
EXTENDS Function, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, memo
Init == n = 0 /\ memo = Unasked
Step ==
    /\ n < Len(Trace) /\ n' = n + 1
    /\ LET r == Trace[n + 1]
       IN  /\ memo' = Learn(memo, r.q, r.a)
           /\ IF r.a.h THEN PrintT(<<"BAD", r.n, "the call does not return", "END">>)
              ELSE IF r.a.p # "" THEN PrintT(<<"BAD", r.n, "panic", "END">>)
              ELSE IF r.free \/ Agrees(memo, r.q, r.a) THEN TRUE ELSE PrintT(<<"BAD", r.n, <<"another answer than before", memo[r.q]>>, "END">>)
    /\ IF n + 1 = Len(Trace) THEN PrintT(<<"CONSUMED", n + 1>>) ELSE TRUE
Spec == Init /\ [][Step]_<<n, memo>>
=============================================================================
