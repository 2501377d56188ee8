------------------------------ MODULE Surface ------------------------------
(***************************************************************************)
(* What the surface of a text is. A text is a sequence of characters          *)
(* (numbers of Unicode). Two texts with the same canonical text differ in      *)
(* their surface only: the script of their decimal digits, the case of their   *)
(* letters, the kind and number of their spaces (the marks of the direction of   *)
(* writing count as such) and the spaces around them.                           *)
(* Letters: the pairs of one capital and one small letter that are each other's *)
(* only case (the saltillo is not among them: the data of the language Ngomba   *)
(* has it as a letter of its own, everything else reads it as an apostrophe).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json

Table == JsonDeserialize("letters.json")
Zeros == {Table.zeros[i] : i \in 1..Len(Table.zeros)}
Capital == [i \in {Table.upper[j] : j \in 1..Len(Table.upper)} |-> Table.lower[CHOOSE j \in 1..Len(Table.upper) : Table.upper[j] = i]]
Spaces == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202) \cup {8206, 8207}

Digit == [c \in UNION {z..(z + 9) : z \in Zeros} |-> 48 + (c - (CHOOSE z \in Zeros : z <= c /\ c <= z + 9))]

(* One character, canonically. *)
Special == Spaces \cup DOMAIN Digit \cup DOMAIN Capital
Map == [c \in Special |-> IF c \in Spaces THEN 32 ELSE IF c \in DOMAIN Digit THEN Digit[c] ELSE Capital[c]]
Char(c) == IF c \in Special THEN Map[c] ELSE c

(* A text, canonically: no space first or last, never two in a row. *)
Canon(t) ==
    LET m == [i \in 1..Len(t) |-> Char(t[i])]
        Kept(i) == m[i] # 32 \/ (i > 1 /\ m[i - 1] # 32)
        RECURSIVE Take(_)
        Take(i) == IF i > Len(m) THEN <<>> ELSE IF Kept(i) THEN <<m[i]>> \o Take(i + 1) ELSE Take(i + 1)
        k == Take(1)
    IN  IF k # <<>> /\ k[Len(k)] = 32 THEN SubSeq(k, 1, Len(k) - 1) ELSE k

SameText(s, t) == Canon(s) = Canon(t)

(* The rewritings that keep a text, one place at a time. *)
Variants(c) == {x \in Special \cup {Char(c)} : Char(x) = Char(c)}
Put(t, i, c) == SubSeq(t, 1, i - 1) \o <<c>> \o SubSeq(t, i, Len(t))
=============================================================================
