----------------------------- MODULE MCTimestamp -----------------------------
(* A counter in decimal digits: each step counts one second, forward and with a minus sign backward. *)
EXTENDS Timestamp, TLC

CONSTANT STEPS

VARIABLES ds, k

(* Just before carries of every length, before midnights and 2^31, 2^32. *)
Starts == { <<1,4,8,4,8,2,3,4,5,0>>, <<0,0,0,0,0,8,6,3,9,0>>, <<2,1,4,7,4,8,3,6,4,0>>, <<4,2,9,4,9,6,7,2,9,0>>,
            <<0,9,9,9,9,9,9,9,9,0>>, <<1,9,9,9,9,9,9,9,9,0>>, <<9,9,9,9,9,8,9,9,9,0>>, <<0,0,0,0,0,0,0,0,0,0>> }

RECURSIVE Inc(_, _)
Inc(d, i) == IF d[i] < 9 THEN [d EXCEPT ![i] = @ + 1] ELSE Inc([d EXCEPT ![i] = 0], i - 1)

Init == ds \in Starts /\ k = 0
Next == k < STEPS /\ ds' = Inc(ds, 10) /\ k' = k + 1
Spec == Init /\ [][Next]_<<ds, k>>

X(d, n) == [ds |-> d, neg |-> n, pure |-> TRUE]

Ticks == [][/\ Instant(X(ds', FALSE)) = Shift(Instant(X(ds, FALSE)), 1)
            /\ Instant(X(ds', TRUE)) = Shift(Instant(X(ds, TRUE)), -1)]_<<ds, k>>

(* The negated number is as far from the epoch on the other side. *)
Mirror == LET p == Instant(X(ds, FALSE))
              n == Instant(X(ds, TRUE))
          IN  /\ p[1] + n[1] + (IF p[2] + n[2] = 0 THEN 0 ELSE 1) = 0
              /\ (p[2] + n[2]) % 86400 = 0

Finer == /\ Instant(X(ds \o <<1, 2, 3>>, FALSE)) = <<Instant(X(ds, FALSE))[1], Instant(X(ds, FALSE))[2], 123000000>>
         /\ Instant(X(ds \o <<1, 2, 3, 4, 5, 6>>, FALSE))[3] = 123456000

(* Known instants. *)
ASSUME Instant(X(<<1,4,8,4,8,2,3,4,5,0>>, FALSE)) = <<DayNum(2017, 1, 19), SecOfDay(10, 57, 30), 0>>
ASSUME Instant(X(<<9,9,9,9,9,9,9,9,9,9>>, FALSE)) = <<DayNum(2286, 11, 20), SecOfDay(17, 46, 39), 0>>
ASSUME Instant(X(<<1,0,0,0,0,0,0,0,0,0>>, FALSE)) = <<DayNum(2001, 9, 9), SecOfDay(1, 46, 40), 0>>
=============================================================================
