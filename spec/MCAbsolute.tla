----------------------------- MODULE MCAbsolute -----------------------------
(***************************************************************************)
(* The rules of Absolute against the promises made to users, for every     *)
(* combination of written parts and preferences around chosen moments of   *)
(* reference. A run picks a reference, then a string, then resolves it.    *)
(***************************************************************************)
EXTENDS Absolute, TLC

CONSTANTS Nows,       \* set of <<y, mo, d, sec>>
          Days, Months, Years, Times, Shifts, Sources, Doms, Moys

QTimes == {-1, 0, 43200}
QNows == {<<2015, 2, 28, 43200>>, <<2016, 2, 29, 0>>, <<2016, 12, 31, 86399>>, <<2100, 1, 1, 1>>}
QYears == {<<0, 0>>, <<2015, 4>>, <<2016, 4>>, <<0, 2>>, <<68, 2>>, <<69, 2>>}
TNows == QNows \cup {<<2014, 1, 31, 0>>, <<2000, 2, 29, 86399>>, <<2023, 3, 1, 43200>>, <<1999, 12, 31, 43201>>, <<2028, 2, 28, 43199>>, <<2024, 4, 30, 0>>}
TYears == QYears \cup {<<1900, 4>>, <<2100, 4>>, <<99, 2>>, <<15, 2>>}

VARIABLES phase, g, c, res
vars == <<phase, g, c, res>>

NoC == [wd |-> 0, d |-> 0, m |-> 0, y |-> 0, yl |-> 0, t |-> FALSE, h |-> 0, mi |-> 0, s |-> 0, ns |-> 0, tp |-> ""]

Init ==
    /\ phase = "ref"
    /\ \E n \in Nows, src \in Sources, dom \in Doms, moy \in Moys, sh \in Shifts :
          g = [y |-> n[1], mo |-> n[2], d |-> n[3], h |-> n[4] \div 3600, mi |-> (n[4] % 3600) \div 60, s |-> n[4] % 60,
               ns |-> 0, src |-> src, dom |-> dom, moy |-> moy, strict |-> FALSE, req |-> <<>>, rtp |-> FALSE,
               shift |-> sh]
    /\ c = NoC
    /\ res = None

Write ==
    /\ phase = "ref"
    /\ \E wd \in {0, 1, 7}, d \in Days, m \in Months, y \in Years, t \in Times :
          c' = [wd |-> wd, d |-> d, m |-> m, y |-> y[1], yl |-> y[2], t |-> t >= 0,
                h |-> IF t >= 0 THEN t \div 3600 ELSE 0, mi |-> IF t >= 0 THEN (t % 3600) \div 60 ELSE 0,
                s |-> IF t >= 0 THEN t % 60 ELSE 0, ns |-> 0, tp |-> "Second"]
    /\ phase' = "written"
    /\ c'.wd # 0 \/ c'.d # 0 \/ c'.m # 0 \/ c'.yl # 0 \/ c'.t     \* something is written
    /\ UNCHANGED <<g, res>>

Answer ==
    /\ phase = "written"
    /\ res' = Resolve(c, g)
    /\ phase' = "done"
    /\ UNCHANGED <<g, c>>

Next == Write \/ Answer
Spec == Init /\ [][Next]_vars

Done == phase = "done" /\ res.some

RWall == Shift(<<DayNum(res.y, res.m, res.d), SecOfDay(res.h, res.mi, res.s), res.ns>>, g.shift)

WrittenKept ==
    Done =>
        /\ c.d # 0 => res.d = c.d
        /\ c.m # 0 => res.m = c.m
        /\ c.yl = 4 => res.y = c.y
        /\ c.yl = 2 => res.y % 100 = c.y
        /\ c.t => res.h = c.h /\ res.mi = c.mi /\ res.s = c.s
        /\ (c.wd # 0 /\ c.d = 0 /\ c.m = 0 /\ c.yl = 0) => Weekday(DayNum(res.y, res.m, res.d)) = c.wd

Valid == Done => ValidYMD(res.y, res.m, res.d)

(* A rejected string is one whose parts do not exist together in any year or month it could mean. *)
OnlyImpossible ==
    (phase = "done" /\ ~res.some) =>
        c.d # 0 /\ (c.m # 0 \/ c.d > 28)

Movable == \/ c.m # 0 /\ c.yl = 0
           \/ c.d = 0 /\ c.m = 0 /\ c.yl = 0
           \/ c.yl = 2 /\ g.y \in 1970..2067 /\ ~(c.d = 29 /\ c.m = 2) /\ c.m # 0 /\ c.d # 0

PastKept   == (Done /\ g.src = 1 /\ Movable) => ~Later(RWall, NowWall(g))
FutureKept == (Done /\ g.src = 2 /\ Movable) => ~Later(NowWall(g), RWall)

(* The nearest candidate: one step back towards the reference is on the wrong side. *)
Nearest ==
    (Done /\ c.d = 0 /\ c.m = 0 /\ c.yl = 0 /\ g.src # 0) =>
        LET step == IF c.wd # 0 THEN 7 ELSE 1
            n    == DayNum(res.y, res.m, res.d)
        IN  IF g.src = 1
            THEN \/ AfterN(c, g, n + step)
                 \/ (c.wd # 0 /\ n + 7 >= DayNum(g.y, g.mo, g.d))
            ELSE \/ BeforeN(c, g, n - step)
                 \/ (c.wd # 0 /\ n - 7 <= DayNum(g.y, g.mo, g.d))

NearestYear ==
    (Done /\ c.m # 0 /\ c.yl = 0 /\ g.src # 0 /\ c.d # 0 /\ c.d <= 28) =>
        IF g.src = 1 THEN After(c, g, res.y + 1, res.m, res.d)
        ELSE ~After(c, g, res.y - 1, res.m, res.d)

(* Demands filter, they do not change. *)
DemandsFilter ==
    phase = "done" =>
        \A req \in {<<>>, <<"day">>, <<"month">>, <<"year">>, <<"day", "year">>}, st \in BOOLEAN :
            LET r2 == Resolve(c, [g EXCEPT !.req = req, !.strict = st])
            IN  /\ r2 \in {res, None}
                /\ (r2 = None /\ res # None) =>
                     Missing(c) \cap ({req[i] : i \in 1..Len(req)} \cup (IF st THEN {"day", "month", "year"} ELSE {})) # {}

PeriodTells == Done => res.per = Period(c)
=============================================================================
