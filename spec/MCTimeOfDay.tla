----------------------------- MODULE MCTimeOfDay -----------------------------
(* Every second of the day, written on both clocks, is read back. *)
EXTENDS TimeOfDay
VARIABLE t
Init == t = 0
Next == t < 86399 /\ t' = t + 1
Spec == Init /\ [][Next]_t
H == t \div 3600
M == (t \div 60) % 60
S == t % 60
W(h, mi, s, ap) == [h |-> h, mi |-> mi, s |-> s, f |-> <<>>, ap |-> ap]
H12 == IF H % 12 = 0 THEN 12 ELSE H % 12
AP == IF H < 12 THEN "am" ELSE "pm"
Is(w, h, mi, s) == Readable(w) /\ LET r == ReadTime(w) IN r.h = h /\ r.mi = mi /\ r.s = s /\ r.ns = 0
RoundTrip ==
    /\ Is(W(H, M, S, ""), H, M, S)
    /\ Is(W(H12, M, S, AP), H, M, S)
    /\ Is(W(H12, M, -1, AP), H, M, 0)
    /\ Is(W(H12, -1, -1, AP), H, 0, 0)
    /\ Is(W(H, M, -1, ""), H, M, 0)
    /\ H >= 13 => Is(W(H, M, -1, AP), H, M, 0) /\ ~Readable(W(H, M, S, AP)) /\ ~Readable(W(H, -1, -1, AP))
InDay == LET r == ReadTime(W(H12, M, S, AP)) IN SecOfDay(r.h, r.mi, r.s) = t
FracOk == /\ Frac(<<5>>, 1) = 500000000 /\ Frac(<<0, 0, 0, 0, 0, 1, 9>>, 1) = 1000
          /\ Frac(<<9, 9, 9, 9, 9, 9, 9, 9, 9>>, 1) = 999999000 /\ Frac(<<>>, 1) = 0
=============================================================================
