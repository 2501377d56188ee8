----------------------------- MODULE Vocabulary -----------------------------
(***************************************************************************)
(* What the words of a language denote. The table vocabulary.json holds,    *)
(* for 360 locales, the names of months and weekdays and the relative       *)
(* phrases that the CLDR gives them (taken out of the tables of the JDK and *)
(* of ICU, not out of this repository), as far as go-dateparser knows them: *)
(*   loc   the locale the entry belongs to                                   *)
(*   k     "month", "day", "word" (a phrase without number), "rel" or        *)
(*         "half" (of the day)                                                *)
(*   v     the month, the weekday (Monday is 1), the half of the day, or the  *)
(*         direction of a phrase: 1 ahead, -1 ago, 0 the current unit         *)
(*   u     the unit of a phrase                                               *)
(*   a, b  the word; the text before and after the number                     *)
(*   ks    the amounts that a phrase is used with                             *)
(* The table words.json holds, in the same way, what the library promises     *)
(* beyond that: the words that its maintainers wrote down by hand, phrases   *)
(* with number words, and the words for the halves of the day.               *)
(* A region speaks its language: it knows every word of the language,        *)
(* unless the region gives the word a meaning of its own.                    *)
(***************************************************************************)
EXTENDS Relative, Json

(* The words of homographs.json differ from another word only by their vowel marks. *)
Table == JsonDeserialize("vocabulary.json") \o JsonDeserialize("words.json") \o JsonDeserialize("homographs.json")
Regions == JsonDeserialize("regions.json")       \* region |-> language

Own == {<<"fr-MA", "mar.">>}                      \* March there, Tuesday in France

Speaks(at, e) == at = e.loc \/ (at \in DOMAIN Regions /\ Regions[at] = e.loc /\ ~(<<at, e.a>> \in Own))

(* The amount of a phrase, in thousandths, and its direction. *)
Said(e, k) ==
    CASE e.u = "year" -> [NoAmount EXCEPT !.y = 1000 * k]
      [] e.u = "month" -> [NoAmount EXCEPT !.mo = 1000 * k]
      [] e.u = "week" -> [NoAmount EXCEPT !.w = 1000 * k]
      [] e.u = "day" -> [NoAmount EXCEPT !.d = 1000 * k]
      [] e.u = "hour" -> [NoAmount EXCEPT !.h = 1000 * k]
      [] e.u = "minute" -> [NoAmount EXCEPT !.mi = 1000 * k]
      [] OTHER -> [NoAmount EXCEPT !.s = 1000 * k]

Way(e) == IF e.v = 1 THEN "in" ELSE "ago"

Still == [t |-> FALSE, h |-> 0, mi |-> 0, s |-> 0, ns |-> 0, tp |-> ""]

(* Every instant that the phrase may denote at the moment now, shown in zone z. *)
PhraseInstants(e, k, now, z, pem) == Moved(now, z, Carried(Said(e, k)), Way(e), 1, pem, Still)

(* The hour of the day: twelve is the first hour of its half. *)
HourOf(half, h) == (h % 12) + (IF half = 2 THEN 12 ELSE 0)

WeekdayOf(day) == ((day + 3) % 7) + 1             \* day 0 is Thursday
=============================================================================
