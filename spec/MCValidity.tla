----------------------------- MODULE MCValidity -----------------------------
(* Every entry point, from a valid call on, with one field after the other changed: nothing invalid is accepted, *)
(* no entry point is laxer than the part of the call that it uses, and repairing the field repairs the call.        *)
EXTENDS Validity
VARIABLES e, v
Sel0 == [locales |-> <<>>, langs |-> <<"en">>, deflangs |-> <<>>, region |-> "", given |-> FALSE, prev |-> FALSE, detect |-> <<>>]
V0 == [dom |-> 0, moy |-> 0, src |-> 0, req |-> <<>>, types |-> <<>>, sel |-> Sel0, lang |-> "en"]
Numbers == {0, 2, 3, 255}
Parts == {<<"d", "a", "y">>, <<"Y", "e", "A", "r">>, <<"h", "o", "u", "r">>, <<>>}
Init == e \in Entries /\ v = V0
Next == /\ UNCHANGED e
        /\ \/ \E x \in Numbers : v' = [v EXCEPT !.dom = x]
           \/ \E x \in Numbers : v' = [v EXCEPT !.moy = x]
           \/ \E x \in Numbers : v' = [v EXCEPT !.src = x]
           \/ \E p \in Parts : v' = [v EXCEPT !.req = <<p>>]
           \/ \E t \in {0, 5, 6} : v' = [v EXCEPT !.types = <<4, t>>]
           \/ \E x \in {"xx", "en-AU", "fr"} : v' = [v EXCEPT !.sel.langs = <<"en", x>>]
           \/ \E x \in {"xx", "en-AU", "fr", "en"} : v' = [v EXCEPT !.sel.locales = <<"en", x>>]
           \/ \E x \in {"xx", "de"} : v' = [v EXCEPT !.lang = x]
Spec == Init /\ [][Next]_<<e, v>>
Bad3(x) == x > 2
PreferencesCount == (Bad3(v.dom) \/ Bad3(v.moy) \/ Bad3(v.src) \/ v.req \in {<<<<>>>>, <<<<"h", "o", "u", "r">>>>}) => Refused(e, v)
ParseIsStrictest == Refused("search", v) => Refused("parse", v)
CalendarsUseOnlyThese == e \in {"hijri", "jalali"} /\ Preferences(v) /\ RequiredOk(v) => ~Refused(e, v)
DefaultIsFine == v = V0 => ~Refused(e, v)
=============================================================================
