------------------------------ MODULE Relative ------------------------------
(***************************************************************************)
(* What a relative date means. The string writes amounts of units a,        *)
(*    a.dec a.y a.mo a.w a.d a.h a.mi a.s                                   *)
(* in thousandths of the unit, -1 when a unit is not written; a direction   *)
(*    dir   "in", "ago" or "" when none is written                          *)
(* and perhaps a time of day t (t.t, t.h, t.mi, t.s, t.ns, t.tp). The       *)
(* moment of reference n is an instant, shown in zone z.                    *)
(***************************************************************************)
EXTENDS Zones

(* The amounts, from years down to seconds; decades are years and weeks are days. *)
Units == <<"Year", "Month", "Day", "Hour", "Minute", "Second">>
Factor == <<12, 30, 24, 60, 60>>

Sum(a, ka, b, kb) == IF a = -1 /\ b = -1 THEN -1
                     ELSE (IF a = -1 THEN 0 ELSE ka * a) + (IF b = -1 THEN 0 ELSE kb * b)

Written(a) == <<Sum(a.dec, 10, a.y, 1), a.mo, Sum(a.w, 7, a.d, 1), a.h, a.mi, a.s>>

Plus(x, k) == IF k = 0 THEN x ELSE (IF x = -1 THEN 0 ELSE x) + k

(* The fraction f of unit k, in thousandths, spread over the smaller units: the rest of a second is dropped. *)
RECURSIVE Spread(_, _, _)
Spread(v, k, f) ==
    IF k = 6 THEN v
    ELSE LET x == f * Factor[k]
         IN  Spread([v EXCEPT ![k + 1] = Plus(@, 1000 * (x \div 1000))], k + 1, x % 1000)

(* Whole amounts of unit k; a fraction of a second is rounded. *)
CarryUnit(v, k) ==
    IF v[k] = -1 \/ v[k] % 1000 = 0 THEN v
    ELSE IF k = 6 THEN [v EXCEPT ![6] = 1000 * ((@ + 500) \div 1000)]
    ELSE LET f == v[k] % 1000
         IN  Spread([v EXCEPT ![k] = @ - f], k, f)

RECURSIVE CarryFrom(_, _)
CarryFrom(v, k) == IF k > 6 THEN v ELSE CarryFrom(CarryUnit(v, k), k + 1)

(* The whole amounts, in thousandths, that a text asks for. *)
Carried(a) == CarryFrom(Written(a), 1)

Amount(v, k) == IF v[k] = -1 THEN 0 ELSE v[k] \div 1000

Forward(dir, src) == dir # "ago" /\ (dir = "in" \/ src = 2)

-----------------------------------------------------------------------------
(* The calendar part of the move, on a wall clock. *)
MoveDate(w, y, mo, d, pem) ==
    LET c == Civil(w[1])
        e == IF pem THEN AddMonthsClamp(c.y, c.m, c.d, (12 * y) + mo) ELSE AddMonthsRoll(c.y, c.m, c.d, (12 * y) + mo)
    IN  <<DayNum(e.y, e.m, e.d) + d, w[2], w[3]>>

(* The clock part, on an instant. *)
MoveClock(t, h, mi, s) ==
    LET a == <<t[1] + (h \div 24) + (mi \div 1440) + (s \div 86400), t[2], t[3]>>
    IN  Shift(a, ((h % 24) * 3600) + ((mi % 1440) * 60) + (s % 86400))

(* Every instant that the relative date may denote: more than one only where clocks change. *)
Moved(n, z, v, dir, src, pem, t) ==
    LET g   == IF Forward(dir, src) THEN 1 ELSE -1
        y   == g * Amount(v, 1)
        mo  == g * Amount(v, 2)
        d   == g * Amount(v, 3)
        day == IF y = 0 /\ mo = 0 /\ d = 0 THEN {n} ELSE Denoted(z, MoveDate(WallAt(z, n), y, mo, d, pem))
        all == {MoveClock(x, g * Amount(v, 4), g * Amount(v, 5), g * Amount(v, 6)) : x \in day}
    IN  IF ~t.t THEN all
        ELSE UNION {Denoted(z, <<WallAt(z, x)[1], SecOfDay(t.h, t.mi, t.s), t.ns>>) : x \in all}

Finer(p, q) == LET rank(x) == CHOOSE i \in 1..6 : Units[i] = x IN rank(p) > rank(q)

(* The finest unit that is written or carried into; a time of day may be finer still. *)
Precision(v, t) ==
    LET ks == {k \in 1..6 : v[k] # -1}
        p  == Units[CHOOSE k \in ks : \A j \in ks : j <= k]
    IN  IF t.t /\ Finer(t.tp, p) THEN t.tp ELSE p

RelPeriod(v, t, rtp) ==
    LET p == Precision(v, t)
    IN  IF ~rtp /\ p \in {"Hour", "Minute", "Second"} THEN "Day" ELSE p

-----------------------------------------------------------------------------
(* Words that stand for an amount and a direction. *)
NoAmount == [dec |-> -1, y |-> -1, mo |-> -1, w |-> -1, d |-> -1, h |-> -1, mi |-> -1, s |-> -1]

Phrases == {"now", "today", "yesterday", "tomorrow", "day before yesterday", "day after tomorrow", "last week", "next week",
            "this week", "last month", "next month", "this month", "last year", "next year", "this year",
            "last decade", "next decade", "this decade", "this hour", "this minute",
            "less than 1 minute ago"}

PhraseAmount(p) ==
    CASE p = "now" -> [NoAmount EXCEPT !.s = 0]
      [] p = "today" -> [NoAmount EXCEPT !.d = 0]
      [] p \in {"yesterday", "tomorrow"} -> [NoAmount EXCEPT !.d = 1000]
      [] p \in {"day before yesterday", "day after tomorrow"} -> [NoAmount EXCEPT !.d = 2000]
      [] p = "this week" -> [NoAmount EXCEPT !.w = 0]
      [] p = "this month" -> [NoAmount EXCEPT !.mo = 0]
      [] p = "this hour" -> [NoAmount EXCEPT !.h = 0]
      [] p = "this minute" -> [NoAmount EXCEPT !.mi = 0]
      [] p = "this decade" -> [NoAmount EXCEPT !.dec = 0]
      [] p \in {"last decade", "next decade"} -> [NoAmount EXCEPT !.dec = 1000]
      [] p = "this year" -> [NoAmount EXCEPT !.y = 0]
      [] p \in {"last week", "next week"} -> [NoAmount EXCEPT !.w = 1000]
      [] p \in {"last month", "next month"} -> [NoAmount EXCEPT !.mo = 1000]
      [] p \in {"last year", "next year"} -> [NoAmount EXCEPT !.y = 1000]
      [] OTHER -> [NoAmount EXCEPT !.s = 45000]

PhraseDir(p) ==
    CASE p \in {"tomorrow", "day after tomorrow", "next week", "next month", "next year", "next decade"} -> "in"
      [] OTHER -> "ago"
=============================================================================
