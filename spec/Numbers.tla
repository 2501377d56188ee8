------------------------------ MODULE Numbers ------------------------------
(***************************************************************************)
(* Which part of a date each number of a text stands for. A token is        *)
(*    [k |-> "n", v |-> value, w |-> number of digits]     a number, or      *)
(*    [k |-> "m", v |-> month, w |-> 0]                    a month by name    *)
(* and the order is a sequence of "d", "m", "y". Tokens are taken from left   *)
(* to right; each number takes the first part of the order that is still      *)
(* free and that it can be, and the state is the assignment so far:           *)
(*    st.ok    FALSE when some number could not be any free part              *)
(*    st.p     the parts: records [v, w, src] with src "-" (free), "n", "m"   *)
(*    st.rest  numbers that lost their part to a better one                   *)
(***************************************************************************)
EXTENDS Calendar

FreePart == [v |-> 0, w |-> 0, src |-> "-"]
Start == [ok |-> TRUE, d |-> FreePart, m |-> FreePart, y |-> FreePart, rest |-> << >>]

Get(st, p) == CASE p = "d" -> st.d [] p = "m" -> st.m [] OTHER -> st.y
Set(st, p, x) == CASE p = "d" -> [st EXCEPT !.d = x] [] p = "m" -> [st EXCEPT !.m = x] [] OTHER -> [st EXCEPT !.y = x]

(* A number can be a year of four digits or of two, a day 1..31, a month 1..12. *)
LongYear(t) == t.w = 4
ShortYear(t) == t.w = 2
Can(t, p) == CASE p = "d" -> t.w \in 1..2 /\ t.v \in 1..31
               [] p = "m" -> t.w \in 1..2 /\ t.v \in 1..12
               [] OTHER   -> LongYear(t) \/ ShortYear(t)

(* A full year is final: later numbers are no years. *)
Final(st, p) == p = "y" /\ st.y.src = "n" /\ st.y.w = 4

(* A part of two digits read as a year gives way to a year of four digits. *)
GivesWay(st, p, t) == p = "y" /\ st.y.src = "n" /\ st.y.w = 2 /\ LongYear(t)

Part(t) == [v |-> t.v, w |-> t.w, src |-> t.k]

(* A number that can only be the day takes it when the number that was the day can be the month, which is *)
(* missing. Otherwise the text is no date.                                                                  *)
MoveDay(st, t) ==
    IF st.m.src = "-" /\ st.d.src = "n" /\ Can(st.d, "m") /\ Can(t, "d")
    THEN [st EXCEPT !.m = st.d, !.d = [v |-> t.v, w |-> t.w, src |-> "n"]]
    ELSE [st EXCEPT !.ok = FALSE]

Number(st, o, t) ==
    LET fit(p) == ~Final(st, p) /\ Can(t, p) /\ (Get(st, p).src = "-" \/ GivesWay(st, p, t))
        ps     == SelectSeq(o, fit)
    IN  IF ps = << >> THEN MoveDay(st, t)
        ELSE LET p == ps[1]
             IN  IF Get(st, p).src = "-" THEN Set(st, p, Part(t))
                 ELSE Set([st EXCEPT !.rest = Append(@, [v |-> Get(st, p).v, w |-> Get(st, p).w])], p, Part(t))

(* The name of a month takes the month; a number that was read as the month was the day. *)
Name(st, t) ==
    CASE st.m.src = "-" -> [st EXCEPT !.m = Part(t)]
      [] st.m.src = "n" -> [st EXCEPT !.m = Part(t), !.d = [st.m EXCEPT !.src = "n"]]
      [] OTHER          -> [st EXCEPT !.ok = FALSE]

(* Numbers that lost their part fill what is still missing, in order. *)
Fill(st, o, x) ==
    LET free == SelectSeq(o, LAMBDA p : Get(st, p).src = "-")
        ps   == SelectSeq(free, LAMBDA p : (p = "m" => x.v <= 12) /\ (p # "y" => x.v > 0))
        part == [v |-> x.v, w |-> x.w, src |-> "n"]
    IN  CASE free = << >> -> st
          [] ps # << >>   -> Set(st, ps[1], part)
          [] OTHER        -> MoveDay(st, part)

RECURSIVE Take(_, _, _, _)
Take(st, o, ts, i) ==
    IF i > Len(ts) \/ ~st.ok THEN st
    ELSE Take(IF ts[i].k = "m" THEN Name(st, ts[i]) ELSE Number(st, o, ts[i]), o, ts, i + 1)

RECURSIVE FillAll(_, _, _)
FillAll(st, o, i) == IF i > Len(st.rest) \/ ~st.ok THEN st ELSE FillAll(Fill(st, o, st.rest[i]), o, i + 1)

Parts(o, ts) == LET st == Take(Start, o, ts, 1) IN IF st.ok THEN FillAll(st, o, 1) ELSE st
=============================================================================
