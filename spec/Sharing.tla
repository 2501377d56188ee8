------------------------------ MODULE Sharing ------------------------------
(***************************************************************************)
(* A parser that goroutines share, at the grain of single memory accesses.    *)
(* Kinds of call: a Parse, and a Search, which makes sure of its configuration,*)
(* takes the table of unique characters, reads it to detect the language and   *)
(* then parses every piece of the text. The state shared between calls is the   *)
(* list of parser types, the list of the locales used before and the reference  *)
(* to the table; tables are objects that are filled before they are published    *)
(* and never written again.                                                        *)
(* A data race is a state where one goroutine is about to write what another is   *)
(* about to read or write.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Procs, Lang, Pieces, Calls, Guarded
    \* Guarded = FALSE is the parser without its mutex: the model must then find races (MCSharingOpen)

Fields == {"types", "used", "ref"}
VARIABLES pc,        \* where each goroutine stands
          call,      \* what it was asked: [kind, langs, prev]
          left,      \* calls it still makes
          todo,      \* pieces that its search still parses
          lock,      \* owner of the mutex, or 0
          types,     \* the list of parser types was filled in
          used,      \* locales used before
          ref,       \* number of the table that the parser holds
          heap,      \* the tables: sets of languages they are for
          mine,      \* number of the table that a search took
          seen       \* what a search read from its table

vars == <<pc, call, left, todo, lock, types, used, ref, heap, mine, seen>>

NoCall == [kind |-> "none", langs |-> {}, prev |-> FALSE]
Kinds == [kind : {"parse"}, langs : {{}}, prev : BOOLEAN] \cup [kind : {"search"}, langs : SUBSET Lang \ {{}}, prev : {FALSE}]

Init == /\ pc = [p \in Procs |-> "idle"] /\ call = [p \in Procs |-> NoCall] /\ left = [p \in Procs |-> Calls]
        /\ todo = [p \in Procs |-> 0] /\ lock = 0 /\ types = FALSE /\ used = {} /\ ref = 0 /\ heap = <<>>
        /\ mine = [p \in Procs |-> 0] /\ seen = [p \in Procs |-> {}]

Goto(p, s) == pc' = [pc EXCEPT ![p] = s]
Acquire(p, from, to) == /\ pc[p] = from /\ Goto(p, to)
                        /\ IF Guarded THEN lock = 0 /\ lock' = p ELSE lock' = lock
                        /\ UNCHANGED <<call, left, todo, types, used, ref, heap, mine, seen>>
Release(p, from, to) == /\ pc[p] = from /\ Goto(p, to) /\ lock' = IF Guarded THEN 0 ELSE lock
                        /\ UNCHANGED <<call, types, used, ref, heap, mine, seen>>

Begin(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ \E c \in Kinds : call' = [call EXCEPT ![p] = c] /\ Goto(p, IF c.kind = "parse" THEN "parse" ELSE "init")
            /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ UNCHANGED <<todo, lock, types, used, ref, heap, mine, seen>>

(* Search: validation under the lock. *)
InitLock(p) == Acquire(p, "init", "initread")
InitRead(p) == pc[p] = "initread" /\ Goto(p, "initdone") /\ UNCHANGED <<call, left, todo, lock, types, used, ref, heap, mine, seen>>
InitDone(p) == Release(p, "initdone", "table") /\ UNCHANGED <<left, todo>>
(* Search: the table. *)
TabLock(p) == Acquire(p, "table", "tabread")
TabRead(p) == /\ pc[p] = "tabread"
              /\ Goto(p, IF ref # 0 /\ heap[ref] = call[p].langs THEN "tabtake" ELSE "tabmake")
              /\ UNCHANGED <<call, left, todo, lock, types, used, ref, heap, mine, seen>>
TabMake(p) == /\ pc[p] = "tabmake" /\ Goto(p, "tabtake")
              /\ heap' = Append(heap, call[p].langs) /\ ref' = Len(heap')
              /\ UNCHANGED <<call, left, todo, lock, types, used, mine, seen>>
TabTake(p) == /\ pc[p] = "tabtake" /\ Goto(p, "tabdone") /\ mine' = [mine EXCEPT ![p] = ref]
              /\ UNCHANGED <<call, left, todo, lock, types, used, ref, heap, seen>>
TabDone(p) == Release(p, "tabdone", "detect") /\ UNCHANGED <<left, todo>>
(* Search: detection reads the table that it took, without the lock. *)
Detect(p) == /\ pc[p] = "detect" /\ seen' = [seen EXCEPT ![p] = heap[mine[p]]] /\ Goto(p, "parse")
             /\ todo' = [todo EXCEPT ![p] = Pieces]
             /\ UNCHANGED <<call, left, lock, types, used, ref, heap, mine>>
(* Parse: everything under the lock. *)
ParseLock(p) == Acquire(p, "parse", "types")
TypesRead(p) == /\ pc[p] = "types" /\ Goto(p, IF types THEN "locales" ELSE "typesmake")
                /\ UNCHANGED <<call, left, todo, lock, types, used, ref, heap, mine, seen>>
TypesMake(p) == /\ pc[p] = "typesmake" /\ types' = TRUE /\ Goto(p, "locales")
                /\ UNCHANGED <<call, left, todo, lock, used, ref, heap, mine, seen>>
UsedRead(p) == /\ pc[p] = "locales" /\ Goto(p, IF call[p].prev THEN "save" ELSE "parsed")
               /\ UNCHANGED <<call, left, todo, lock, types, used, ref, heap, mine, seen>>
UsedSave(p) == /\ pc[p] = "save" /\ Goto(p, "parsed") /\ \E l \in Lang : used' = used \cup {l}
               /\ UNCHANGED <<call, left, todo, lock, types, ref, heap, mine, seen>>
Parsed(p) == /\ Release(p, "parsed", IF todo[p] > 1 THEN "parse" ELSE "idle")
             /\ todo' = [todo EXCEPT ![p] = IF @ > 0 THEN @ - 1 ELSE 0] /\ left' = left

Move(p) == InitLock(p) \/ InitRead(p) \/ InitDone(p) \/ TabLock(p) \/ TabRead(p) \/ TabMake(p) \/ TabTake(p) \/ TabDone(p) \/ Detect(p)
           \/ ParseLock(p) \/ TypesRead(p) \/ TypesMake(p) \/ UsedRead(p) \/ UsedSave(p) \/ Parsed(p)
Next == \E p \in Procs : Begin(p) \/ Move(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : SF_vars(Move(p))

(* The access that a goroutine is about to make: [field, writes]. *)
Access(p) == CASE pc[p] \in {"initread", "types"} -> [f |-> "types", w |-> FALSE]
               [] pc[p] = "typesmake" -> [f |-> "types", w |-> TRUE]
               [] pc[p] = "locales" -> [f |-> "used", w |-> FALSE]
               [] pc[p] = "save" -> [f |-> "used", w |-> TRUE]
               [] pc[p] \in {"tabread", "tabtake"} -> [f |-> "ref", w |-> FALSE]
               [] pc[p] = "tabmake" -> [f |-> "ref", w |-> TRUE]
               [] OTHER -> [f |-> "nothing", w |-> FALSE]
NoRace == \A p, q \in Procs : p # q /\ Access(p).f = Access(q).f /\ Access(p).f # "nothing" => ~Access(p).w /\ ~Access(q).w

AsAlone == \A p \in Procs : call[p].kind = "search" /\ pc[p] = "parse" /\ todo[p] > 0 => seen[p] = call[p].langs
Returns == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
Held == lock # 0 => pc[lock] \notin {"idle", "init", "table", "detect", "parse"}
=============================================================================
