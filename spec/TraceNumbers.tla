---------------------------- MODULE TraceNumbers ----------------------------
(* Observations of dates in numbers: r.ts the tokens of the text, r.asked the configured order as letters (empty or *)
(* not an order: none), r.want the locale that reads it, r.g the reference and preferences, r.t the time of day      *)
(* written beside, r.o what the implementation answered.                                                              *)
EXTENDS Numbers, TraceBase
A == INSTANCE Absolute
L == INSTANCE Locales

Form(st, t) == [wd |-> 0, d |-> st.d.v, m |-> st.m.v, y |-> st.y.v, yl |-> IF st.y.src = "-" THEN 0 ELSE st.y.w,
                t |-> t.t, h |-> t.h, mi |-> t.mi, s |-> t.s, ns |-> t.ns, tp |-> t.tp]

NumVerdict(r) ==
    LET st == Parts(L!OrderFor(r.asked, r.want), r.ts)
        e  == IF st.ok THEN A!Resolve(Form(st, r.t), r.g) ELSE A!None
    IN  IF ~e.some THEN Judge(~r.o.some, "accepted")
        ELSE IF ~r.o.some THEN Bad(<<"no date", e>>)
        ELSE IF <<r.o.y, r.o.mo, r.o.d>> # <<e.y, e.m, e.d>> THEN Bad(<<"date", e>>)
        ELSE IF <<r.o.h, r.o.mi, r.o.s, r.o.ns>> # <<e.h, e.mi, e.s, e.ns>> THEN Bad(<<"time", e>>)
        ELSE IF r.o.per # e.per THEN Bad(<<"period", e>>)
        ELSE Judge(r.o.loc = r.want, <<"locale", r.want>>)
=============================================================================
