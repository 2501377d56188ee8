----------------------------- MODULE Ownership -----------------------------
(***************************************************************************)
(* Lists as Go has them: a list is a window (array, length) into an array of a *)
(* fixed capacity, a copy of a list shares the array, and appending writes into *)
(* the array when there is room behind the window. The caller passes some lists; *)
(* the library works with copies of them.                                         *)
(*                                                                                  *)
(* The discipline that the library follows: before it writes through a list (it    *)
(* appends, sorts or sets) it owns the array of this list, because it cloned it.    *)
(* Careless = TRUE is a library without this discipline.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap, Steps, Careless
VARIABLES heap,      \* sequence of arrays, each [cells, owner]
          caller,    \* the caller's lists: windows [arr, len]
          mine,      \* the library's lists
          steps, first
vars == <<heap, caller, mine, steps, first>>

Elem == {"a", "b", "x"}
Spare == "spare"
(* What the caller sees: its windows and everything behind them. *)
View == [i \in 1..Len(caller) |-> [len |-> caller[i].len, cells |-> heap[caller[i].arr].cells]]

Init == /\ \E k \in 0..Cap, j \in 0..Cap :
              heap = << [cells |-> [i \in 1..Cap |-> IF i <= k THEN IF i = 1 THEN "b" ELSE "a" ELSE Spare], owner |-> "caller"],
                        [cells |-> [i \in 1..Cap |-> IF i <= j THEN "a" ELSE Spare], owner |-> "caller"] >>
              /\ caller = << [arr |-> 1, len |-> k], [arr |-> 2, len |-> j] >>
        /\ mine = caller /\ steps = 0 /\ first = View

May(w) == Careless \/ heap[w.arr].owner = "library"
Clone(i) == /\ heap' = Append(heap, [cells |-> [c \in 1..Cap |-> IF c <= mine[i].len THEN heap[mine[i].arr].cells[c] ELSE ""], owner |-> "library"])
            /\ mine' = [mine EXCEPT ![i].arr = Len(heap')]
Grow(i, e) == IF mine[i].len < Cap
              THEN /\ May(mine[i])
                   /\ heap' = [heap EXCEPT ![mine[i].arr].cells[mine[i].len + 1] = e]
                   /\ mine' = [mine EXCEPT ![i].len = @ + 1]
              ELSE Clone(i)            \* no room: appending makes an array of its own (longer ones are cut here)
Set(i, k, e) == /\ k <= mine[i].len /\ May(mine[i])
                /\ heap' = [heap EXCEPT ![mine[i].arr].cells[k] = e] /\ UNCHANGED mine
Sort(i) == /\ mine[i].len >= 2 /\ May(mine[i])
           /\ heap' = [heap EXCEPT ![mine[i].arr].cells = [@ EXCEPT ![1] = "a", ![mine[i].len] = "b"]] /\ UNCHANGED mine
Join(i, j) == /\ mine' = [mine EXCEPT ![i] = mine[j]] /\ UNCHANGED heap
Next == /\ steps < Steps /\ steps' = steps + 1 /\ UNCHANGED <<caller, first>>
        /\ \E i, j \in 1..Len(mine) : Clone(i) \/ (\E e \in Elem : Grow(i, e) \/ \E k \in 1..Cap : Set(i, k, e)) \/ Sort(i) \/ Join(i, j)
Spec == Init /\ [][Next]_vars
LeftAlone == View = first
=============================================================================
