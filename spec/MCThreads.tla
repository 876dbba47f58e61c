------------------------------ MODULE MCThreads ------------------------------
(* Calls of several sessions of one device at the same time, each in a thread of
   its own, step by step (C45).  A call keeps what it is about in a cell of its
   own, orders the device's associations by address for itself, shows the whole
   of that to others when it is finished, and looks its telegram up in what is
   shown.  Whatever the order of the steps, each call tells its group objects as
   if it had been alone.                                                        *)
EXTENDS KnxTables, TLC

CONSTANTS Calls, Rounds, Addresses
VARIABLES t, cell, shown, pc, made, step, about, told, round
vars == <<t, cell, shown, pc, made, step, about, told, round>>

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))
Pairs(tt) == Join([i \in 1..Len(tt.assoc) |-> [j \in 1..Len(tt.assoc[i].addrs) |-> <<tt.assoc[i].asap, tt.assoc[i].addrs[j]>>]])
None == [a \in Addresses |-> <<>>]
\* where a call keeps the address it is about
Cell(c) == c
\* what others are shown while a call has ordered some of the associations, or all
ShownAs(was, own, all) == IF all THEN own ELSE was

Devices == {Associate(Associate(NewTables(9, <<>>, 3), 1, x).t, 2, y).t : x, y \in {<<>>, <<5>>, <<6>>, <<5, 6>>}}
Index(tt) == [a \in Addresses |-> AsapsOf(tt, a)]

Init == /\ t \in Devices /\ shown = Index(t)
        /\ cell = [c \in 0..Cardinality(Calls) |-> 0] /\ pc = [c \in Calls |-> "idle"] /\ made = [c \in Calls |-> None]
        /\ step = [c \in Calls |-> 0] /\ about \in [Calls -> Addresses] /\ told = [c \in Calls |-> <<>>] /\ round = [c \in Calls |-> 1]

Begin(c) == /\ pc[c] = "idle"
            /\ cell' = [cell EXCEPT ![Cell(c)] = about[c]]
            /\ pc' = [pc EXCEPT ![c] = "order"] /\ made' = [made EXCEPT ![c] = None] /\ step' = [step EXCEPT ![c] = 0]
            /\ UNCHANGED <<t, shown, about, told, round>>
Order(c) == /\ pc[c] = "order"
            /\ LET ps == Pairs(t)
                   own == IF step[c] = 0 THEN None ELSE [made[c] EXCEPT ![ps[step[c]][2]] = Append(@, ps[step[c]][1])]
               IN /\ made' = [made EXCEPT ![c] = own]
                  /\ shown' = ShownAs(shown, own, step[c] = Len(ps))
                  /\ IF step[c] = Len(ps) THEN pc' = [pc EXCEPT ![c] = "look"] /\ UNCHANGED step
                     ELSE step' = [step EXCEPT ![c] = @ + 1] /\ UNCHANGED pc
            /\ UNCHANGED <<t, cell, about, told, round>>
Look(c) == /\ pc[c] = "look"
           /\ told' = [told EXCEPT ![c] = shown[cell[Cell(c)]]]
           /\ pc' = [pc EXCEPT ![c] = "done"]
           /\ UNCHANGED <<t, cell, shown, made, step, about, round>>
\* the same session's next call
Again(c, a) == /\ pc[c] = "done" /\ round[c] < Rounds
               /\ round' = [round EXCEPT ![c] = @ + 1] /\ about' = [about EXCEPT ![c] = a]
               /\ pc' = [pc EXCEPT ![c] = "idle"] /\ told' = [told EXCEPT ![c] = <<>>]
               /\ UNCHANGED <<t, cell, shown, made, step>>
\* an operation of the tables, while no call runs
Change == /\ \A c \in Calls : pc[c] \in {"idle", "done"}
          /\ t' \in Devices /\ t' # t /\ shown' = Index(t')
          /\ \A c \in Calls : pc[c] = "idle"
          /\ UNCHANGED <<cell, pc, made, step, about, told, round>>
Next == \/ \E c \in Calls : Begin(c) \/ Order(c) \/ Look(c) \/ \E a \in Addresses : Again(c, a)
        \/ Change
Spec == Init /\ [][Next]_vars /\ \A c \in Calls : WF_vars(Begin(c) \/ Order(c) \/ Look(c))

\* each call tells what it would have told alone
Alone == \A c \in Calls : pc[c] = "done" => told[c] = AsapsOf(t, about[c])
\* what is shown is whole at any time
Whole == shown = Index(t)
\* every call ends, whatever the others do
Ends == \A c \in Calls : pc[c] # "done" ~> pc[c] = "done"
View == <<t, cell, shown, pc, made, step, about, told, round>>
=============================================================================
