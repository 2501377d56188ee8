------------------------------ MODULE Validity ------------------------------
(***************************************************************************)
(* Which calls are refused. A call goes to an entry point, with numbers for  *)
(* the three preferences (v.dom, v.moy, v.src), required parts (v.req, each a *)
(* sequence of letters), methods (v.types), a locale selection (v.sel, as in   *)
(* Selection) and the language of the search (v.lang).                          *)
(***************************************************************************)
EXTENDS Selection

Entries == {"parse", "search", "searchlang", "hijri", "jalali"}

Small(ch) == CASE ch = "D" -> "d" [] ch = "A" -> "a" [] ch = "Y" -> "y" [] ch = "M" -> "m" [] ch = "O" -> "o" [] ch = "N" -> "n"
               [] ch = "T" -> "t" [] ch = "H" -> "h" [] ch = "E" -> "e" [] ch = "R" -> "r" [] OTHER -> ch
KnownParts == {<<"d", "a", "y">>, <<"m", "o", "n", "t", "h">>, <<"y", "e", "a", "r">>}
KnownPart(w) == [i \in 1..Len(w) |-> Small(w[i])] \in KnownParts

Preferences(v) == v.dom \in 0..2 /\ v.moy \in 0..2 /\ v.src \in 0..2
RequiredOk(v) == \A i \in 1..Len(v.req) : KnownPart(v.req[i])
MethodsOk(v) == \A i \in 1..Len(v.types) : v.types[i] \in 0..5

(* Names that exist; a search only uses the languages of locales, so that it takes several of one language. *)
NamesOk(v) == ~Invalid(v.sel)
SearchNamesOk(v) == IF v.sel.locales # <<>> THEN Elems(v.sel.locales) \subseteq Names
                    ELSE \A i \in 1..Len(LangsAsked(v.sel)) : IsLanguage(LangsAsked(v.sel)[i])

Refused(e, v) ==
    \/ ~Preferences(v) \/ ~RequiredOk(v)
    \/ e \in {"parse", "search", "searchlang"} /\ ~MethodsOk(v)
    \/ e = "parse" /\ ~NamesOk(v)
    \/ e = "search" /\ ~SearchNamesOk(v)
    \/ e = "searchlang" /\ ~Known(v.lang)
=============================================================================
