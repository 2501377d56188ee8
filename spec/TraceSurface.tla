---------------------------- MODULE TraceSurface ----------------------------
(* Observations of calls: r.q the number of the configuration, r.t the text, r.a everything that the answer says. What was *)
(* answered to a text is the answer to every text with the same canonical text.                                             *)
EXTENDS Surface, Function, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES n, memo
Init == n = 0 /\ memo = Unasked
Step ==
    /\ n < Len(Trace) /\ n' = n + 1
    /\ LET r == Trace[n + 1]
           q == <<r.q, Canon(r.t)>>
       IN  /\ memo' = Learn(memo, q, r.a)
           /\ IF r.a.h THEN PrintT(<<"BAD", r.n, "the call does not return", "END">>)
              ELSE IF r.a.p # "" THEN PrintT(<<"BAD", r.n, "panic", "END">>)
              ELSE IF ~r.fresh /\ ~IsAsked(memo, q) THEN PrintT(<<"BAD", r.n, "CHECK ERROR: not the same text", "END">>)
              ELSE IF Agrees(memo, q, r.a) THEN TRUE ELSE PrintT(<<"BAD", r.n, <<"another answer than to the same text written otherwise", memo[q]>>, "END">>)
    /\ IF n + 1 = Len(Trace) THEN PrintT(<<"CONSUMED", n + 1>>) ELSE TRUE
Spec == Init /\ [][Step]_<<n, memo>>
=============================================================================
