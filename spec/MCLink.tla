------------------------------ MODULE MCLink ------------------------------
(* The view of a link frame under every sequence of fields being set.  With
   Emit every transition is printed, to be replayed on the real view.        *)
EXTENDS KnxLink, TLC, Json
CONSTANTS Emit, Values, Starts
VARIABLES o, last
vars == <<o, last>>
OnlyFrame == o

Fields == {"source", "destination", "address_type", "connected", "apci", "data", "nsdu"}
Width == [source |-> 65536, destination |-> 65536, address_type |-> 2, connected |-> 2, apci |-> 1024, data |-> 64, nsdu |-> 10]
Allowed(f) == IF f = "nsdu" THEN 1..9 ELSE {v % Width[f] : v \in Values}
Frames == <<<<188, 96, 17, 2, 9, 1, 1, 66, 129>>, <<189, 224, 0, 0, 0, 0, 1, 4, 64>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255, 255>>>>
Init == (\E i \in Starts : o = Frames[i]) /\ last = [f |-> "none", v |-> 0]
Next == \E f \in Fields : \E v \in Allowed(f) :
          /\ o' = PutField(o, f, v) /\ last' = [f |-> f, v |-> v]
          /\ (Emit => PrintT("@@" \o ToJson([p |-> o, c |-> [op |-> "put", f |-> f, v |-> v], q |-> PutField(o, f, v)])))
Spec == Init /\ [][Next]_vars

Shape == Len(o) = 9 /\ \A i \in 1..9 : o[i] \in 0..255
\* what a field says after being set
Said(f, v) == CASE f = "connected" -> v = 1 [] OTHER -> v
Reads == [][LET f == last'.f v == last'.v IN f \notin {"nsdu", "none"} => LinkView(o')[f] = Said(f, v)]_vars
\* fields which lie in the same bits
Shares(f) == CASE f = "connected" -> {"connected", "tpci", "nsdu"}
               [] f = "apci" -> {"apci", "apci_value", "data", "tpci", "nsdu"}
               [] f = "data" -> {"data", "apci", "apci_value"}
               [] f = "nsdu" -> {"nsdu", "tpci", "connected", "apci"}
               [] f \in {"address_type", "destination"} -> {f, "nsdu"}
               [] OTHER -> {f}
Leaves == [][LET f == last'.f IN \A g \in DOMAIN LinkView(o) : g \in Shares(f) \/ LinkView(o')[g] = LinkView(o)[g]]_vars
\* and of an octet shared with others the bits of the field alone
Octet(i, lo, n) == o'[i] - (Bits(o'[i], lo, n) * Pow2(lo)) = o[i] - (Bits(o[i], lo, n) * Pow2(lo))
Bitwise == [][LET f == last'.f v == last'.v IN
               CASE f = "data" -> Octet(9, 0, 6)
                 [] f = "apci" -> Octet(8, 0, 2)
                 [] f = "connected" -> Octet(8, 7, 1)
                 [] f = "address_type" -> Octet(2, 7, 1)
                 [] f = "nsdu" -> /\ SubSeq(o', 1, 7) = SubSeq(o, 1, 7) /\ o'[9] = o[9]
                                  /\ IF v <= 5 THEN o'[8] % 4 = o[8] % 4 ELSE Bits(o'[8], 2, 4) = Bits(o[8], 2, 4)
                 [] OTHER -> TRUE]_vars
\* the kind which was set is the kind it has, when the address type allows it
Kinds == [][(last'.f = "nsdu" /\ (Bit(o[2], 7) = 1) = (last'.v <= 3)) =>
              \/ UnitKind(o') = Kinds9[last'.v]
              \/ last'.v \in {1, 2} /\ UnitKind(o') \in {"broadcast", "group"}]_vars
\* setting again what is there changes nothing
Again == \A f \in Fields \ {"nsdu"} : LET v == LinkView(o)[f] IN PutField(o, f, IF f = "connected" THEN (IF v THEN 1 ELSE 0) ELSE v) = o
Twice == [][\A f \in Fields : \A v \in (IF f = "nsdu" THEN 1..9 ELSE {0, 1}) : PutField(PutField(o, f, v), f, v) = PutField(o, f, v)]_vars
=============================================================================
