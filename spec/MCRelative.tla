------------------------------ MODULE MCRelative ------------------------------
(***************************************************************************)
(* The algebra of relative dates, on a machine that reads one amount at     *)
(* one moment after another.                                                *)
(***************************************************************************)
EXTENDS Relative, TLC, FiniteSets

CONSTANT AMOUNTS,    \* amounts in thousandths
         DAYS        \* days of reference

NY == [rule |-> "us", std |-> -18000]
UTCZ == [rule |-> "fixed", std |-> 0]
NoTime == [t |-> FALSE, h |-> 0, mi |-> 0, s |-> 0, ns |-> 0, tp |-> ""]
Noon == [t |-> TRUE, h |-> 12, mi |-> 0, s |-> 0, ns |-> 5, tp |-> "Minute"]

VARIABLES n, z, u, k, pem, dir

vars == <<n, z, u, k, pem, dir>>

Fields == {"dec", "y", "mo", "w", "d", "h", "mi", "s"}

Init == /\ n \in {<<d, s, 0>> : d \in DAYS, s \in {0, 21600, 86399}}
        /\ z \in {NY, UTCZ}
        /\ u = "d" /\ k = 0 /\ pem = FALSE /\ dir = "ago"

Next == /\ u' \in Fields /\ k' \in AMOUNTS /\ pem' \in BOOLEAN /\ dir' \in {"in", "ago", ""}
        /\ UNCHANGED <<n, z>>

Spec == Init /\ [][Next]_vars

A(f, x) == [NoAmount EXCEPT ![f] = x]

V == Carried(A(u, k))

(* Nothing of an amount is lost but the part below a second. *)
Secs == <<0, 0, 86400, 3600, 60, 1>>
RECURSIVE Total(_, _)
Total(v, j) == IF j < 3 THEN 0 ELSE (Secs[j] * Amount(v, j)) + Total(v, j - 1)

Whole == \A j \in 1..6 : V[j] = -1 \/ V[j] % 1000 = 0

Limited == /\ u \notin {"dec", "y"} \/ Amount(V, 2) < 12
           /\ (u \notin {"mo"} => Amount(V, 3) < 30 \/ u \in {"w", "d"})
           /\ Amount(V, 4) < 24 \/ u = "h"
           /\ Amount(V, 5) < 60 \/ u = "mi"
           /\ Amount(V, 6) < 60 \/ u = "s"

(* In days and below, the seconds that the whole amounts add up to are the written ones. *)
Conserved ==
    LET per == CASE u = "w" -> 604800 [] u = "d" -> 86400 [] u = "h" -> 3600 [] u = "mi" -> 60 [] OTHER -> 1
    IN  (u \in {"w", "d", "h", "mi"} /\ k < 20000) =>
            LET exact == ((k \div 1000) * per) + (((k % 1000) * per) \div 1000)
            IN  Total(V, 6) = exact

(* Forward and back again: the moment of reference, where days are not cut off by a month. *)
Back ==
    (u \in {"w", "d", "h", "mi", "s"} /\ z = UTCZ) =>
        \A t \in Moved(n, z, V, "in", 0, pem, NoTime) : Moved(t, z, V, "ago", 0, pem, NoTime) = {n}

(* Moving backward never leads after the reference and forward never before it. *)
Side ==
    \A t \in Moved(n, z, V, dir, 0, pem, NoTime) :
        IF dir = "in" THEN AtLeast(t, n) ELSE AtLeast(n, t)

(* The preference decides when no direction is written, and only then. *)
Preference ==
    /\ Moved(n, z, V, "", 2, pem, NoTime) = Moved(n, z, V, "in", 0, pem, NoTime)
    /\ Moved(n, z, V, "", 1, pem, NoTime) = Moved(n, z, V, "ago", 0, pem, NoTime)
    /\ Moved(n, z, V, "ago", 2, pem, NoTime) = Moved(n, z, V, "ago", 1, pem, NoTime)

(* The end of the month is kept when that is asked for, never run over. *)
EndKept ==
    (u \in {"y", "mo", "dec"} /\ pem /\ k % 1000 = 0 /\ z = UTCZ) =>
        \A t \in Moved(n, z, V, dir, 0, TRUE, NoTime) :
            LET a == Civil(n[1])
                b == Civil(t[1])
                months == (k \div 1000) * (CASE u = "y" -> 12 [] u = "dec" -> 120 [] OTHER -> 1)
            IN  /\ (b.y * 12) + b.m = (a.y * 12) + a.m + (IF dir = "in" THEN months ELSE -months)
                /\ b.d = Min(a.d, DaysIn(b.y, b.m))

(* A time of day replaces the clock of the day that the date leads to. *)
Clock ==
    \A t \in Moved(n, z, V, dir, 0, pem, Noon) :
        \E x \in Moved(n, z, V, dir, 0, pem, NoTime) : WallAt(z, t) = <<WallAt(z, x)[1], 43200, 5>>

(* Only where clocks change is there more than one answer. *)
Few == Cardinality(Moved(n, z, V, dir, 0, pem, NoTime)) <= (IF z = UTCZ THEN 1 ELSE 2)
=============================================================================
