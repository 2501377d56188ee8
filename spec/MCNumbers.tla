----------------------------- MODULE MCNumbers -----------------------------
(* All texts of up to three numbers (values chosen around what days, months and years can be), in all orders. *)
EXTENDS Numbers, TLC, FiniteSets
CONSTANTS Values, Longs
VARIABLES order, ts
Perms == { <<"d","m","y">>, <<"d","y","m">>, <<"m","d","y">>, <<"m","y","d">>, <<"y","m","d">>, <<"y","d","m">> }
Tokens == {[k |-> "n", v |-> v, w |-> IF v < 10 THEN 1 ELSE 2] : v \in Values} \cup {[k |-> "n", v |-> v, w |-> 2] : v \in {x \in Values : x < 10}}
          \cup {[k |-> "n", v |-> v, w |-> 4] : v \in Longs} \cup {[k |-> "m", v |-> m, w |-> 0] : m \in {2, 7}}
Init == order \in Perms /\ ts = << >>
Next == Len(ts) < 3 /\ \E t \in Tokens : ts' = Append(ts, t) /\ UNCHANGED order
Spec == Init /\ [][Next]_<<order, ts>>

R == Parts(order, ts)
Numeric == \A i \in 1..Len(ts) : ts[i].k = "n"
Fit(t, p) == Can(t, p)
At(p) == CHOOSE i \in 1..3 : order[i] = p
Readings == {f \in [1..3 -> {"d", "m", "y"}] : \A i, j \in 1..3 : i # j => f[i] # f[j]}
Good(f) == \A i \in 1..3 : Fit(ts[i], f[i])
Is(f) == \A i \in 1..3 : Get(R, f[i]).v = ts[i].v

(* numbers that can be read in the configured order are read so - unless a year in full stands elsewhere *)
InOrder == (Len(ts) = 3 /\ Numeric /\ \A i \in 1..3 : Fit(ts[i], order[i])) => R.ok /\ Is([i \in 1..3 |-> order[i]])
(* the only reading there is *)
OnlyOne == (Len(ts) = 3 /\ Numeric /\ Cardinality({f \in Readings : Good(f)}) = 1) =>
             (R.ok => Is(CHOOSE f \in Readings : Good(f)))
(* with one year in full a reading is always found, if there is any *)
Found == (Len(ts) = 3 /\ Numeric /\ Cardinality({i \in 1..3 : ts[i].w = 4}) = 1 /\ \E f \in Readings : Good(f)) =>
             R.ok /\ \E f \in Readings : Good(f) /\ Is(f)
(* every number is used once: nothing is invented *)
NothingInvented == R.ok => \A p \in {"d", "m", "y"} : Get(R, p).src # "-" => \E i \in 1..Len(ts) : ts[i].v = Get(R, p).v
Named == (Len(ts) = 3 /\ R.ok /\ \E i \in 1..3 : ts[i].k = "m") => \E i \in 1..3 : ts[i].k = "m" /\ R.m.v = ts[i].v
=============================================================================
