------------------------------ MODULE Locales ------------------------------
(* The locales: for each name the order of its numeric dates and its rank (prevalence of its language). *)
EXTENDS Integers, Sequences, Json

Locales == JsonDeserialize("locales.json")
Names == DOMAIN Locales
Known(l) == l \in Names

OrderOf(l) == Locales[l].order
RankOf(l) == Locales[l].rank

Low(c) == CASE c = "D" -> "d" [] c = "M" -> "m" [] c = "Y" -> "y" [] OTHER -> c

(* A configured order is a text; only the three letters, each once, in any case, count as one. *)
ValidOrder(o) == Len(o) = 3 /\ {Low(o[i]) : i \in 1..3} = {"d", "m", "y"}

(* The order in use for a locale when a configuration asks for the order o. *)
OrderFor(o, l) == IF ValidOrder(o) THEN [i \in 1..3 |-> Low(o[i])] ELSE OrderOf(l)
=============================================================================
