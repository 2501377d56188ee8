----------------------------- MODULE MCFormats -----------------------------
(* For every layout of three date parts and every token they may read: the moment carries what is written, takes the *)
(* rest from the reference, and the order of the layouts decides between two of them.                                *)
EXTENDS Formats, TLC
CONSTANTS Days, Months, Years
VARIABLES la, lb, x, g

S == [k |-> "s", v |-> "-"]
E(k) == [k |-> k]
DayE == {E("02"), E("2")}
MonE == {E("01"), E("1"), E("Jan")}
YearE == {E("2006"), E("06")}
Layouts == {<<a, S, b, S, c>> : a \in DayE, b \in MonE, c \in YearE} \cup {<<a, S, b, S, c>> : a \in MonE, b \in DayE, c \in YearE}
           \cup {<<a, S, b>> : a \in DayE, b \in MonE} \cup {<<a, S, b>> : a \in MonE, b \in YearE} \cup {<<a, S, b>> : a \in DayE, b \in YearE}
           \cup {<<a>> : a \in DayE \cup MonE \cup YearE}
N(v, w) == [k |-> "n", v |-> v, w |-> w]
Toks == {N(d, IF d < 10 THEN 1 ELSE 2) : d \in Days} \cup {N(m, 2) : m \in Months} \cup {N(y, 4) : y \in Years} \cup {[k |-> "m", v |-> m, w |-> 2] : m \in Months}
Texts == {<<a>> : a \in Toks} \cup {<<a, S, b>> : a \in Toks, b \in Toks} \cup {<<a, S, b, S, c>> : a \in Toks, b \in Toks, c \in {N(2015, 4), N(68, 2)}}
Refs == {[y |-> y, mo |-> 3, d |-> 31, dom |-> p, moy |-> p, strict |-> FALSE, req |-> << >>] : y \in {2015, 2016}, p \in 0..2}

Init == la \in Layouts /\ lb = << >> /\ x = << >> /\ g \in Refs
Next == \/ lb = << >> /\ lb' \in Layouts /\ UNCHANGED <<la, x, g>>
        \/ lb # << >> /\ x = << >> /\ \E t \in Texts : (Reads(la, t) \/ Reads(lb, t)) /\ x' = t /\ UNCHANGED <<la, lb, g>>
Spec == Init /\ [][Next]_<<la, lb, x, g>>

R == ByFormats(<<la, lb>>, x, g)
Ready == x # << >>
Real == Ready /\ R.some => R.d \in 1..DaysIn(R.y, R.m) /\ R.m \in 1..12
FirstWins == Ready /\ Gives(la, x, g) => R = ByFormats(<<la>>, x, g)
SecondElse == Ready /\ ~Gives(la, x, g) => R = ByFormats(<<lb>>, x, g)
NoYear == Ready /\ R.some /\ ~HasYear(la) /\ ~HasYear(lb) => R.y = g.y
=============================================================================
