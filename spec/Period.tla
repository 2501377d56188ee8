------------------------------- MODULE Period -------------------------------
(***************************************************************************)
(* How precise a text is. It is read by one of the methods                  *)
(*    "absolute"  a date in parts       "relative"  amounts of units          *)
(*    "timestamp" "format" "nospace"                                          *)
(* and writes a set of things: "decade", "year", "month", "week", "day",      *)
(* "weekday", "hour", "minute", "second" (a time of day writes its hour and   *)
(* perhaps the minute and second; an amount writes its unit).                 *)
(***************************************************************************)
EXTENDS Integers

Things == {"decade", "year", "month", "week", "day", "weekday", "hour", "minute", "second"}
Times == {"hour", "minute", "second"}
Methods == {"absolute", "relative", "timestamp", "format", "nospace"}
Periods == <<"Year", "Month", "Day", "Hour", "Minute", "Second">>
Rank(p) == CHOOSE i \in 1..6 : Periods[i] = p

FinestTime(w) == IF "second" \in w THEN "Second" ELSE IF "minute" \in w THEN "Minute" ELSE "Hour"

(* Without the times of day: what is not written at all counts as day. *)
DatePeriod(method, w) ==
    CASE "day" \in w -> "Day"
      [] method = "relative" /\ w \cap {"week", "hour", "minute", "second"} # {} -> "Day"
      [] "month" \in w -> "Month"
      [] "year" \in w \/ "decade" \in w -> "Year"
      [] OTHER -> "Day"

(* A layout without a month tells a year, and one without a day tells a month, whatever else it has. *)
FormatPeriod(w) == CASE "month" \notin w -> "Year" [] "day" \notin w -> "Month" [] OTHER -> "Day"

(* rtp: whether the caller asked to return time as period. *)
PeriodFor(method, w, rtp) ==
    CASE method = "timestamp" -> IF rtp THEN "Second" ELSE "Day"
      [] method = "nospace"   -> "Day"
      [] method = "format"    -> FormatPeriod(w)
      [] OTHER -> IF rtp /\ w \cap Times # {} THEN FinestTime(w) ELSE DatePeriod(method, w)
=============================================================================
