------------------------------ MODULE Selection ------------------------------
(***************************************************************************)
(* Which locale reads a text. A call has a configuration                     *)
(*    c.locales, c.langs, c.deflangs   sequences of names                      *)
(*    c.region                         "" or a region in capitals               *)
(*    c.given                          the order of the caller counts            *)
(*    c.prev                           previously used locales are tried first    *)
(* and perhaps detected languages (c.detect, used when nothing else is given). *)
(* Of a text is known                                                           *)
(*    can      the locales that apply to it and read it                           *)
(*    forced   the locales that read it when they are not asked whether they apply *)
(* The parser has a memory, a sequence of locales. A locale that is in neither    *)
(* set may apply without being able to read the text, or not apply at all: what   *)
(* such a locale in the memory does is left open.                                  *)
(***************************************************************************)
EXTENDS Locales, FiniteSets

LangOf(l) == Locales[l].lang
IsLanguage(x) == x \in Names /\ LangOf(x) = x
Languages == {l \in Names : LangOf(l) = l}

Elems(s) == {s[i] : i \in 1..Len(s)}
Local(l, region) == IF region = "" THEN l ELSE l \o "-" \o region
Localized(s, region) == {Local(x, region) : x \in s} \cap Names

LangsAsked(c) == IF c.langs # <<>> THEN c.langs ELSE c.detect

(* A configuration that names something unknown, or two locales of one language. *)
Invalid(c) ==
    IF c.locales # <<>>
    THEN \/ \E i \in 1..Len(c.locales) : c.locales[i] \notin Names
         \/ \E i, j \in 1..Len(c.locales) : c.locales[i] # c.locales[j] /\ LangOf(c.locales[i]) = LangOf(c.locales[j])
    ELSE \E i \in 1..Len(LangsAsked(c)) : ~IsLanguage(LangsAsked(c)[i])

Selected(c) ==
    CASE c.locales # <<>>     -> Elems(c.locales)
      [] LangsAsked(c) = <<>> -> Localized(Languages, c.region)
      [] OTHER                -> Localized(Elems(LangsAsked(c)), c.region)

(* A default language may be selected as well; at the end it is tried whether it applies or not. *)
Defaults(c) == Localized(Elems(c.deflangs), c.region)

Allowed(c) == Selected(c) \cup Defaults(c)

(* The place of a locale that is asked for by the names s. *)
Place(l, s, c) ==
    IF c.given /\ s # <<>> THEN CHOOSE i \in 1..Len(s) : s[i] \in {l, LangOf(l)} /\ \A j \in 1..(i - 1) : s[j] \notin {l, LangOf(l)}
    ELSE RankOf(l)

FirstOf(set, s, c) == CHOOSE l \in set : \A k \in set : Place(l, s, c) <= Place(k, s, c)

(* The locale that reads the text without the memory, "" when there is none. *)
Usual(c, can, forced) ==
    IF Selected(c) \cap can # {} THEN FirstOf(Selected(c) \cap can, IF c.locales # <<>> THEN c.locales ELSE LangsAsked(c), c)
    ELSE IF Defaults(c) \cap forced # {} THEN FirstOf(Defaults(c) \cap forced, c.deflangs, c)
    ELSE ""

(* The locales that may read the text with the memory m. *)
RECURSIVE WithMemory(_, _, _, _)
WithMemory(m, c, can, forced) ==
    IF m = <<>> THEN {Usual(c, can, forced)}
    ELSE LET l == Head(m)
         IN  IF l \notin Allowed(c) THEN WithMemory(Tail(m), c, can, forced)
             ELSE IF l \in can THEN {l}
             ELSE IF l \in forced THEN WithMemory(Tail(m), c, can, forced)
             ELSE {Usual(c, can, forced)} \cup WithMemory(Tail(m), c, can, forced)

Answers(m, c, can, forced) == IF c.prev THEN WithMemory(m, c, can, forced) ELSE {Usual(c, can, forced)}

(* The memory after the locale l has read a text. *)
Remember(m, c, l) == IF c.prev /\ l # "" /\ l \notin Elems(m) THEN Append(m, l) ELSE m
=============================================================================
