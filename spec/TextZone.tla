------------------------------ MODULE TextZone ------------------------------
(***************************************************************************)
(* Which time zone a result is shown in. A text may write a zone x          *)
(*    x.k  "none", "name" or "digits"                                       *)
(*    x.n  the name in capital letters;  x.sg, x.h, x.m the digits          *)
(* the configuration may have a default zone def (def.some), and the        *)
(* moment of reference is given in a zone ref.                              *)
(***************************************************************************)
EXTENDS Relative, ZoneNames

DigitOffset(x) == x.sg * ((x.h * 3600) + (x.m * 60))

(* A zone that the text can write: a known name, or a listed offset. *)
Recognised(x) == \/ x.k = "name" /\ x.n \in DOMAIN ZoneOffset
                 \/ x.k = "digits" /\ DigitOffset(x) \in ListedOffsets

TextOffset(x) == IF x.k = "name" THEN ZoneOffset[x.n] ELSE DigitOffset(x)

FixedZone(o) == [rule |-> "fixed", std |-> o]

(* The zone of a date: that of the text, else the default one, else that of the reference. *)
ShownIn(x, def, ref) == IF Recognised(x) THEN FixedZone(TextOffset(x))
                        ELSE IF def.some THEN [rule |-> def.rule, std |-> def.std] ELSE ref

(* A custom format reads the text on its own: without a zone and without a default one it is UTC. *)
FormatZone(x, def) == ShownIn(x, def, FixedZone(0))
=============================================================================
