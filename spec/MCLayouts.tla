----------------------------- MODULE MCLayouts -----------------------------
(***************************************************************************)
(* The table of layouts, one row after the other. Every row is well formed  *)
(* and can be read back: its numbers stand apart, its words differ, and two *)
(* moments that it writes alike agree in every part that it writes.         *)
(***************************************************************************)
EXTENDS Layouts, FiniteSets
VARIABLES i, x

MomentOf(k) ==
    LET y == 2000 + (k % 60)
        m == (k % 12) + 1
        d == (k % 28) + 1
    IN  [y |-> y, m |-> m, d |-> d, wd |-> ((DayNum(y, m, d) + 3) % 7) + 1, h |-> (k * 7) % 24, mi |-> (k * 11) % 60, s |-> (k * 13) % 60]

Init == i = 1 /\ x = MomentOf(1)
Next == i < Len(Rows) /\ i' = i + 1 /\ x' = MomentOf(i + 1)
Spec == Init /\ [][Next]_<<i, x>>

row == Rows[i]
lay == Layouts.lays[row.l]
Number(p) == p.k \in {"d", "mo", "y", "h", "mi", "s"}
Range(q) == {q[k] : k \in 1..Len(q)}
Words(k, n) == IF k = 0 THEN TRUE ELSE Len(Layouts.words[k]) = n /\ Cardinality(Range(Layouts.words[k])) = n

Formed ==
    /\ \A k \in 1..(Len(lay) - 1) : ~(Number(lay[k]) /\ Number(lay[k + 1]))
    /\ Words(row.m, 12) /\ Words(row.w, 7) /\ Words(row.p, 2)
    /\ (row.m # 0) = Has(lay, "M") /\ (row.w # 0) = Has(lay, "W") /\ (row.p # 0) = Has(lay, "P")
    /\ ~(Has(lay, "M") /\ Has(lay, "mo"))
    /\ Has(lay, "mo") => Has(lay, "d") /\ Has(lay, "y")
    /\ Has(lay, "d") \/ Has(lay, "M")
    /\ \A k \in {"d", "M", "mo", "y", "W", "P", "h", "mi", "s"} : Cardinality({j \in 1..Len(lay) : lay[j].k = k}) <= 1

(* Moments that differ from x in one part. *)
Near == {[x EXCEPT !.y = @ + 1], [x EXCEPT !.m = (@ % 12) + 1], [x EXCEPT !.d = (@ % 28) + 1], [x EXCEPT !.wd = (@ % 7) + 1],
         [x EXCEPT !.h = (@ + 12) % 24], [x EXCEPT !.h = (@ + 1) % 24], [x EXCEPT !.mi = (@ + 1) % 60], [x EXCEPT !.s = (@ + 1) % 60]}
Readable == \A z \in Near : TextOf(row, z) = TextOf(row, x) => Written(row, z) = Written(row, x)
=============================================================================
