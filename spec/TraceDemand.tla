----------------------------- MODULE TraceDemand -----------------------------
(* Pairs of observations: r.f without a demand, r.o with it; r.has the written parts. *)
EXTENDS Demand, TraceBase

DemandVerdict(r) ==
    LET has == {r.has[i] : i \in 1..Len(r.has)}
        a   == Answer(r.f, has, r.strict, r.req)
    IN  IF ~r.f.some THEN Judge(~r.o.some, "a demand made a text readable")
        ELSE IF ~a.some THEN Judge(~r.o.some, "a text without a demanded part was accepted")
        ELSE IF ~r.o.some THEN Bad("a text with all demanded parts was rejected")
        ELSE Judge(r.o = a, "the demand changed the answer")
=============================================================================
