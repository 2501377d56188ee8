----------------------------- MODULE MCTextZone -----------------------------
(* The choice of a zone: the text goes before the default zone, which goes before that of the reference; *)
(* a wall clock stays the same whatever the zone, an instant stays the same whatever it is shown in.      *)
EXTENDS TextZone, TLC

NoClock == [t |-> FALSE]

VARIABLES x, def, t

DefaultZones == {[some |-> FALSE, rule |-> "fixed", std |-> 0], [some |-> TRUE, rule |-> "us", std |-> -18000],
         [some |-> TRUE, rule |-> "fixed", std |-> 20700]}

Init == /\ x \in {[k |-> "none", n |-> "", sg |-> 1, h |-> 0, m |-> 0]}
                 \cup {[k |-> "name", n |-> i, sg |-> 1, h |-> 0, m |-> 0] : i \in DOMAIN ZoneOffset}
                 \cup [k : {"digits"}, n : {""}, sg : {1, -1}, h : 0..14, m : {0, 15, 30, 45}]
        /\ def \in DefaultZones
        /\ t \in {<<16494, 3600, 0>>, <<16740, 18000, 5>>, <<17000, 86399, 999999999>>}

Next == UNCHANGED <<x, def, t>>
Spec == Init /\ [][Next]_<<x, def, t>>

(* Every listed offset is within the world's zones and a multiple of a quarter of an hour. *)
Sane == Recognised(x) => /\ TextOffset(x) >= -43200 /\ TextOffset(x) <= 50400
                         /\ x.k = "digits" => TextOffset(x) % 900 = 0

Priority == /\ Recognised(x) => FormatZone(x, def) = ShownIn(x, def, FixedZone(77))
            /\ (~Recognised(x) /\ def.some) => FormatZone(x, def).std = def.std
            /\ (~Recognised(x) /\ ~def.some) => ShownIn(x, def, FixedZone(77)) = FixedZone(77)

(* "now" is the moment of reference in every zone. *)
NowIsNow == LET z == ShownIn(x, def, FixedZone(0))
            IN  Moved(t, z, Carried(PhraseAmount("now")), "ago", 0, FALSE, NoClock) = {t}

WallKept == LET z == FormatZone(x, def)
            IN  \A i \in Denoted(z, t) : Instants(z, t) = {} \/ WallAt(z, i) = t
=============================================================================
