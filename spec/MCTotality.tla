----------------------------- MODULE MCTotality -----------------------------
(* The demands on answers are sane: every instant has one sound clock in every zone, and no date is both something and    *)
(* nothing.                                                                                                                   *)
EXTENDS Totality, TLC
VARIABLES ed, es, off
Days == {-719468 - 400, -719528, -1, 0, 1, 10956, 11015, 11016, 2932896, 20000}
Init == ed \in Days /\ es \in {0, 1, 43200, 86399} /\ off \in {0, -86399, 86399, 19800, -12600, 50400}
Next == UNCHANGED <<ed, es, off>>
Clock == LET c == es + off IN [day |-> Civil(ed + (c \div 86400)), s |-> c % 86400]
Shown(dd, ds) == [some |-> TRUE, far |-> FALSE, y |-> Clock.day.y, mo |-> Clock.day.m, d |-> Clock.day.d + dd, h |-> Clock.s \div 3600, mi |-> (Clock.s % 3600) \div 60,
             s |-> Clock.s % 60, ns |-> 0, off |-> off, es |-> es, ed |-> ed + ds, per |-> "Day", loc |-> "en",
             wd |-> Weekday(ed + ((es + off) \div 86400))]
SoundOnce == Sound(Shown(0, 0)) /\ Dated(Shown(0, 0)) /\ ~Sound(Shown(1, 0)) /\ ~Sound(Shown(0, 1)) /\ ~Nothing(Shown(0, 0))
Spec == Init /\ [][Next]_<<ed, es, off>>
=============================================================================
