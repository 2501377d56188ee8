------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* Custom formats. A text is a sequence of tokens                           *)
(*    [k |-> "n", v |-> value, w |-> digits]      a run of digits             *)
(*    [k |-> "m", v |-> 1..12, w |-> form]        the name of a month          *)
(*    [k |-> "wd", v |-> 1..7, w |-> form]        the name of a weekday          *)
(*    [k |-> "pm", v |-> 0 or 1, w |-> case]      AM or PM (upper 1, lower 0)    *)
(*    [k |-> "s", v |-> the characters, w |-> 0]  anything else                   *)
(* (form 1: in full, 2: shortened to three letters, 3: both are the same), and *)
(* a layout is a sequence of elements: the elements of Go's time layouts by   *)
(* name, and separators [k |-> "s", v |-> the characters].                     *)
(***************************************************************************)
EXTENDS Absolute

Wide(t, n) == t.k = "n" /\ t.w = n
Short(t)   == t.k = "n" /\ t.w \in 1..2

(* Whether the element e reads the token t. *)
Fits(e, t) ==
    CASE e.k = "s"       -> t.k = "s" /\ t.v = e.v
      [] e.k = "2006"    -> Wide(t, 4)
      [] e.k = "06"      -> Wide(t, 2)
      [] e.k = "01"      -> Wide(t, 2) /\ t.v \in 1..12
      [] e.k = "1"       -> Short(t) /\ t.v \in 1..12
      [] e.k = "January" -> t.k = "m" /\ t.w \in {1, 3}
      [] e.k = "Jan"     -> t.k = "m" /\ t.w \in {2, 3}
      [] e.k = "Monday"  -> t.k = "wd" /\ t.w = 1
      [] e.k = "Mon"     -> t.k = "wd" /\ t.w = 2
      [] e.k = "02"      -> Wide(t, 2) /\ t.v \in 1..31
      [] e.k = "2"       -> Short(t) /\ t.v \in 1..31
      [] e.k = "15"      -> Short(t) /\ t.v \in 0..23
      [] e.k = "03"      -> Wide(t, 2) /\ t.v \in 0..12
      [] e.k = "3"       -> Short(t) /\ t.v \in 0..12
      [] e.k = "04"      -> Wide(t, 2) /\ t.v \in 0..59
      [] e.k = "4"       -> Short(t) /\ t.v \in 0..59
      [] e.k = "05"      -> Wide(t, 2) /\ t.v \in 0..59
      [] e.k = "5"       -> Short(t) /\ t.v \in 0..59
      [] e.k = "PM"      -> t.k = "pm" /\ t.w = 1
      [] e.k = "pm"      -> t.k = "pm" /\ t.w = 0

Reads(l, x) == Len(l) = Len(x) /\ \A i \in 1..Len(l) : Fits(l[i], x[i])

(* The last token that one of the given elements reads, or the default. *)
Value(l, x, ks, default) ==
    LET is == {i \in 1..Len(l) : l[i].k \in ks}
    IN  IF is = {} THEN default ELSE x[CHOOSE i \in is : \A j \in is : j <= i].v
Has(l, ks) == \E i \in 1..Len(l) : l[i].k \in ks

YearOf(l, x) == IF Has(l, {"2006"}) THEN Value(l, x, {"2006"}, 0)
                ELSE LET v == Value(l, x, {"06"}, 0) IN IF v >= 69 THEN 1900 + v ELSE 2000 + v

HourOf(l, x) ==
    LET h == Value(l, x, {"15", "03", "3"}, 0)
        p == Value(l, x, {"PM", "pm"}, 2)
    IN  CASE p = 1 /\ h < 12 -> h + 12 [] p = 0 /\ h = 12 -> 0 [] OTHER -> h

HasYear(l)  == Has(l, {"2006", "06"})
HasMonth(l) == Has(l, {"01", "1", "January", "Jan"})
HasDay(l)   == Has(l, {"02", "2"})

(* What the layout l reads from the text x, as parts of a date *)
Moment(l, x, g) ==
    LET y == IF HasYear(l) THEN YearOf(l, x) ELSE g.y
        m == IF HasMonth(l) THEN Value(l, x, {"01", "1", "January", "Jan"}, 1) ELSE PrefMonth(g)
        d == IF HasDay(l) THEN Value(l, x, {"02", "2"}, 1) ELSE PrefDay(g, y, m)
    IN  [some |-> TRUE, y |-> y, m |-> m, d |-> d, h |-> HourOf(l, x), mi |-> Value(l, x, {"04", "4"}, 0),
         s |-> Value(l, x, {"05", "5"}, 0), ns |-> 0,
         per |-> IF ~HasMonth(l) THEN "Year" ELSE IF ~HasDay(l) THEN "Month" ELSE "Day"]

LayoutMissing(l) == (IF HasDay(l) THEN {} ELSE {"day"}) \cup (IF HasMonth(l) THEN {} ELSE {"month"})
                    \cup (IF HasYear(l) THEN {} ELSE {"year"})

(* A layout gives a date if it reads the text, the date exists and nothing that is demanded is missing. *)
Gives(l, x, g) == /\ Reads(l, x)
                  /\ LET t == Moment(l, x, g) IN t.d <= DaysIn(t.y, t.m)
                  /\ LayoutMissing(l) \cap Demanded(g) = {}

(* The first of the layouts that gives a date. *)
ByFormats(ls, x, g) ==
    LET is == {i \in 1..Len(ls) : Gives(ls[i], x, g)}
    IN  IF is = {} THEN None ELSE Moment(ls[CHOOSE i \in is : \A j \in is : i <= j], x, g)

(* The text as it is translated into English: names are written in full, AM and PM are small. *)
InFull(x) == [i \in 1..Len(x) |->
                CASE x[i].k = "m"  -> [x[i] EXCEPT !.w = IF x[i].v = 5 THEN 3 ELSE 1]
                  [] x[i].k = "wd" -> [x[i] EXCEPT !.w = 1]
                  [] x[i].k = "pm" -> [x[i] EXCEPT !.w = 0]
                  [] OTHER         -> x[i]]
=============================================================================
