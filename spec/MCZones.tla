------------------------------- MODULE MCZones -------------------------------
(* The algebra of time zones: an instant is always one of those its wall clock shows, a wall clock *)
(* shows at most two instants, and both happen where the clocks change, once each a year.           *)
EXTENDS Zones, TLC

CONSTANT Y0, Y1

ZONES == {[rule |-> "us", std |-> -18000], [rule |-> "us", std |-> -28800], [rule |-> "eu", std |-> 0],
          [rule |-> "eu", std |-> 3600], [rule |-> "sydney", std |-> 36000], [rule |-> "fixed", std |-> 19800]}

VARIABLES z, t      \* a zone and an instant that moves by half an hour

Init == z \in ZONES /\ \E y \in Y0..Y1, q \in {1, 4, 7, 10} : t = <<DayNum(y, q, 1), 0, 0>>

Next == /\ z' = z
        /\ t' = Shift(t, 1800)
        /\ Civil(t[1]).m \in {3, 4, 10, 11} \/ Civil(t[1]).d < 3

Spec == Init /\ [][Next]_<<z, t>>

RoundTrip == t \in Instants(z, WallAt(z, t))

AtMostTwo == LET w == WallAt(z, t)
             IN  Instants(z, w) \subseteq {t, Shift(t, 3600), Shift(t, -3600)} /\ Instants(z, w) # {}

(* The wall clock moves by half an hour as well, but for one jump of an hour forward or backward. *)
Steady == [][LET d == Shift(WallAt(z, t), 1800)
                 w == WallAt(z, t')
             IN  w \in {d, Shift(d, 3600), Shift(d, -3600)}
                 /\ (w # d => Weekday(w[1]) = 7 /\ z.rule # "fixed")]_<<z, t>>

(* The wall clocks that are skipped denote something all the same. *)
Skipped == \A o \in {-3600, 0, 3600} :
               LET w == Shift(WallAt(z, t), o)
               IN  Denoted(z, w) # {} /\ (Instants(z, w) = {} => z.rule # "fixed")
=============================================================================
