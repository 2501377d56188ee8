------------------------------ MODULE NoSpace ------------------------------
(***************************************************************************)
(* Dates written without spaces: a run of digits ds is cut into parts      *)
(* according to a layout, and the first layout of the configured order that *)
(* reads an existing date wins.                                             *)
(*                                                                          *)
(* A layout is a sequence of parts: "Y" year of four digits (1000 or later),*)
(* "y" year of two digits, "m" month, "d" day, "H" hour, "M" minute,        *)
(* "S" second; all but the years take two digits or one, two being tried    *)
(* first from the left.                                                     *)
(***************************************************************************)
EXTENDS Calendar

Dates == << <<"Y","m","d">>, <<"Y","d","m">>, <<"m","Y","d">>, <<"m","d","Y">>, <<"d","Y","m">>, <<"d","m","Y">>,
            <<"y","m","d">>, <<"y","d","m">>, <<"m","y","d">>, <<"m","d","y">>, <<"d","y","m">>, <<"d","m","y">> >>

Clocks == << <<"H","M","S">>, <<"H","M">>, <<"H">> >>

(* all layouts: the dates, then every date with every clock *)
Layouts == Dates \o [i \in 1..36 |-> Dates[((i - 1) \div 3) + 1] \o Clocks[((i - 1) % 3) + 1]]

Low(p) == IF p = "Y" THEN "y" ELSE p
Ordered(l, o) == <<Low(l[1]), Low(l[2]), Low(l[3])>> = o

(* Layouts for an order, a sequence such as <<"d","m","y">>: those of the order come first. *)
LayoutsOf(o) ==
    (IF o = <<"m","d","y">> THEN << <<"Y","m","d","H","M">>, <<"Y","m","d","H","M","S">> >> ELSE << >>)
    \o SelectSeq(Layouts, LAMBDA l : Ordered(l, o))
    \o SelectSeq(Layouts, LAMBDA l : ~Ordered(l, o))

Orders == { <<"d","m","y">>, <<"d","y","m">>, <<"m","d","y">>, <<"m","y","d">>, <<"y","m","d">>, <<"y","d","m">> }

Table == [o \in Orders |-> LayoutsOf(o)]

Num(ds, from, width) ==
    CASE width = 1 -> ds[from]
      [] width = 2 -> (ds[from] * 10) + ds[from + 1]
      [] OTHER     -> (((((ds[from] * 10) + ds[from + 1]) * 10) + ds[from + 2]) * 10) + ds[from + 3]

Valid(p, v) == CASE p = "Y" -> v >= 1000
                 [] p = "y" -> TRUE
                 [] p = "m" -> v \in 1..12
                 [] p = "d" -> v \in 1..31
                 [] p = "H" -> v \in 0..23
                 [] OTHER   -> v \in 0..59

MinWidth(p) == CASE p = "Y" -> 4 [] p = "y" -> 2 [] OTHER -> 1
MaxWidth(p) == IF p = "Y" THEN 4 ELSE 2

RECURSIVE Least(_, _)
Least(l, i) == IF i > Len(l) THEN 0 ELSE MinWidth(l[i]) + Least(l, i + 1)
RECURSIVE Most(_, _)
Most(l, i) == IF i > Len(l) THEN 0 ELSE MaxWidth(l[i]) + Most(l, i + 1)

Empty == [Y |-> 0, m |-> 0, d |-> 0, H |-> 0, M |-> 0, S |-> 0]

Put(a, p, v) == CASE p = "Y" -> [a EXCEPT !.Y = v]
                  [] p = "y" -> [a EXCEPT !.Y = IF v >= 69 THEN 1900 + v ELSE 2000 + v]
                  [] p = "m" -> [a EXCEPT !.m = v]
                  [] p = "d" -> [a EXCEPT !.d = v]
                  [] p = "H" -> [a EXCEPT !.H = v]
                  [] p = "M" -> [a EXCEPT !.M = v]
                  [] OTHER   -> [a EXCEPT !.S = v]

(* All that the layout l reads from the digits from position `from` on is added to a, which has the parts *)
(* before position i of the layout. The result is a sequence of at most one reading.                       *)
RECURSIVE Cut(_, _, _, _, _)
Cut(ds, l, i, from, a) ==
    LET left == (Len(ds) - from) + 1
    IN  IF left < Least(l, i) \/ left > Most(l, i) THEN << >>
        ELSE IF i > Len(l) THEN (IF a.d <= DaysIn(a.Y, a.m) THEN <<a>> ELSE << >>)
        ELSE LET p == l[i]
                 wide   == IF MaxWidth(p) <= left /\ Valid(p, Num(ds, from, MaxWidth(p)))
                           THEN Cut(ds, l, i + 1, from + MaxWidth(p), Put(a, p, Num(ds, from, MaxWidth(p))))
                           ELSE << >>
             IN  IF wide # << >> \/ MinWidth(p) = MaxWidth(p) THEN wide
                 ELSE IF Valid(p, ds[from]) THEN Cut(ds, l, i + 1, from + 1, Put(a, p, ds[from])) ELSE << >>

RECURSIVE FirstLayout(_, _, _)
FirstLayout(ds, ls, k) ==
    IF k > Len(ls) THEN << >>
    ELSE LET x == Cut(ds, ls[k], 1, 1, Empty) IN IF x # << >> THEN <<[x |-> x[1], l |-> ls[k]]>> ELSE FirstLayout(ds, ls, k + 1)

(* The first of several runs of digits that can be read. *)
RECURSIVE FirstRun(_, _, _)
FirstRun(runs, o, k) ==
    IF k > Len(runs) THEN << >>
    ELSE LET x == FirstLayout(runs[k], Table[o], 1)
         IN IF x # << >> THEN <<[x |-> x[1].x, l |-> x[1].l, run |-> k]>> ELSE FirstRun(runs, o, k + 1)

(* Under a demand for parts only eight digits or more with a full year count as complete. *)
Accepts(r, runs, demand) == ~demand \/ (Len(runs[r.run]) >= 8 /\ \E i \in 1..Len(r.l) : r.l[i] = "Y")

Read(runs, o, demand) ==
    LET r == FirstRun(runs, o, 1)
    IN  IF r = << >> THEN << >> ELSE IF Accepts(r[1], runs, demand) THEN <<r[1].x>> ELSE << >>
=============================================================================
