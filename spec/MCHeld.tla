------------------------------- MODULE MCHeld -------------------------------
(* What a program holds of a device and what it does to it (C41, C43): messages
   and frames it was given, datapoints it sent, lists the lookups returned, the
   lists another device was built from.  Everything lies in cells; each thing
   has cells of its own, and the tables lie in a cell nobody else has.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Max, Kinds, Emit
VARIABLES held, store, conf, last
vars == <<held, store, conf, last>>

Parts(kind) == CASE kind = "telegram" -> {"message", "others"}
                 [] kind = "request" -> {"given", "frame"}
                 [] kind = "lookup" -> {"list"}
                 [] kind = "device" -> {"lists"}
Tables == <<0, "tables">>
\* where a part of the i-th thing lies
CellOf(i, kind, part) == <<i, part>>
Tabs(c) == <<"tables", c>>
\* what it says when it is made while the tables hold c
Says(kind, part, c) == <<kind, part, c>>
Cells(i) == {CellOf(i, held[i].kind, p) : p \in Parts(held[i].kind)}

Init == held = <<>> /\ store = (Tables :> Tabs(0)) /\ conf = 0 /\ last = [op |-> "start"]
Make(kind) ==
  /\ Len(held) < Max
  /\ LET i == Len(held) + 1
         new == {CellOf(i, kind, p) : p \in Parts(kind)}
         \* made anew, or as it lies there
         value(c) == IF c \in DOMAIN store THEN store[c] ELSE Says(kind, CHOOSE p \in Parts(kind) : CellOf(i, kind, p) = c, store[Tables])
     IN /\ held' = Append(held, [kind |-> kind, at |-> conf, altered |-> {}])
        /\ store' = [c \in DOMAIN store \cup new |-> IF c \in new THEN value(c) ELSE store[c]]
  /\ last' = [op |-> "make", kind |-> kind] /\ UNCHANGED conf
Alter(i, p) ==
  /\ p \notin held[i].altered
  /\ held' = [held EXCEPT ![i].altered = @ \cup {p}]
  /\ store' = [store EXCEPT ![CellOf(i, held[i].kind, p)] = <<"altered">>]
  /\ last' = [op |-> "alter", i |-> i, p |-> p] /\ UNCHANGED conf
\* an operation of the tables
Reconfigure == /\ conf' = 1 - conf /\ store' = [store EXCEPT ![Tables] = Tabs(1 - conf)] /\ last' = [op |-> "reconfigure"] /\ UNCHANGED held
Node == [held |-> [i \in 1..Len(held) |-> [kind |-> held[i].kind, at |-> held[i].at, altered |-> [p \in Parts(held[i].kind) |-> p \in held[i].altered]]], conf |-> conf]
Steps == \/ \E kind \in Kinds : Make(kind)
        \/ \E i \in 1..Len(held) : \E p \in Parts(held[i].kind) : Alter(i, p)
        \/ Reconfigure
Next == Steps /\ (Emit => PrintT("@@" \o ToJson([p |-> Node, c |-> last', q |-> Node'])))
Spec == Init /\ [][Next]_vars

\* a thing says what it said when it was made, whatever happened since, unless it was itself changed
Stays == \A i \in 1..Len(held) : \A p \in Parts(held[i].kind) :
           p \notin held[i].altered => store[CellOf(i, held[i].kind, p)] = Says(held[i].kind, p, Tabs(held[i].at))
\* the tables change by their operations only
TablesOwn == store[Tables] = Tabs(conf)
Apart == \A i, j \in 1..Len(held) : i # j => Cells(i) \cap Cells(j) = {}

View == <<held, store, conf>>
=============================================================================
