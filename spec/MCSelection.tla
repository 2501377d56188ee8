----------------------------- MODULE MCSelection -----------------------------
(* Every history of calls of one parser, for a few locales and every way in which texts can be readable. *)
EXTENDS Selection
CONSTANTS Some, Lists, Regions
VARIABLES mem, c, can, forced, ans
vars == <<mem, c, can, forced, ans>>
Memory == mem            \* the view: the rest of a state only tells how it was reached

Seqs(n) == UNION {[1..k -> Some] : k \in 0..n}
Configs == {d \in [locales : {<<>>} \cup (IF Lists THEN Seqs(2) ELSE {}), langs : Seqs(2), deflangs : Seqs(1), region : Regions,
                   given : BOOLEAN, prev : BOOLEAN, detect : {<<>>}] : d.langs # <<>> \/ d.locales # <<>>}
Universe == Some \cup (IF Regions = {""} THEN {} ELSE Localized(Some, "AU") \cup Localized(Some, "BE"))

Init == /\ mem = <<>> /\ ans = ""
        /\ c = [locales |-> <<>>, langs |-> <<>>, deflangs |-> <<>>, region |-> "", given |-> FALSE, prev |-> FALSE, detect |-> <<>>]
        /\ can = {} /\ forced = {}

Call(d) ==
    /\ c' = d
    /\ forced' \in SUBSET Universe
    /\ can' \in SUBSET forced'
    /\ IF Invalid(d) THEN ans' = "error" /\ UNCHANGED mem
       ELSE /\ ans' \in Answers(mem, d, can', forced')
            /\ mem' = Remember(mem, d, ans')

Next == \E d \in Configs : Call(d)
Spec == Init /\ [][Next]_vars

NoDoubles == \A i, j \in 1..Len(mem) : i # j => mem[i] # mem[j]
OnlyAllowed == [][ans' \notin {"", "error"} => ans' \in Allowed(c') /\ ans' \in can' \cup (Defaults(c') \cap forced')]_vars
Complete == [][ans' = "" => Selected(c') \cap can' = {} /\ Defaults(c') \cap forced' = {}]_vars
DefaultsLast == [][ans' \in Defaults(c') \ can' /\ ans' \notin Elems(mem) => Selected(c') \cap can' = {}]_vars
(* By prevalence unless the order of the caller counts. *)
InOrder == [][~c'.prev /\ ~c'.given /\ ans' \in Selected(c') \cap can'
              => \A l \in Selected(c') \cap can' : RankOf(ans') <= RankOf(l)]_vars
(* The memory only grows, by what has just read a text under the option. *)
Grows == [][/\ Len(mem') >= Len(mem) /\ SubSeq(mem', 1, Len(mem)) = mem
            /\ mem' # mem => c'.prev /\ mem' = Append(mem, ans')]_vars
(* Without the option the memory does not matter. *)
Forgets == [][~c'.prev /\ ans' # "error" => ans' = Usual(c', can', forced')]_vars
(* With it, what was remembered first reads first, as long as it is allowed and can. *)
Earliest == [][c'.prev /\ ans' # "error" /\ mem # <<>> /\ mem[1] \in Allowed(c') \cap can' => ans' = mem[1]]_vars
=============================================================================
