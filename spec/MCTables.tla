------------------------------ MODULE MCTables ------------------------------
(* The configuration of one device under every sequence of table operations,
   over small sets.  The ghosts rel and held say independently of KnxTables what
   was associated and which addresses were put in and not taken out.  With Emit
   every transition is printed, to be replayed into the real tables.          *)
EXTENDS KnxStack, TLC, Json

CONSTANTS Addrs, Asaps, Cap, Dpts, MaxArgs, Emit
VARIABLES t, rel, held, last
vars == <<t, rel, held, last>>
View == <<t, rel, held>>

Args == UNION {[1..n -> Addrs] : n \in 0..MaxArgs}
Calls == [op : {"tadd", "tremove"}, a : Addrs]
         \cup [op : {"assoc", "disassoc"}, p : Asaps, as : Args]
         \cup [op : {"setdpt"}, p : Asaps, d : Dpts]
         \cup (IF Dpts = {} THEN {} ELSE [op : {"unsetdpt"}, p : Asaps])
Pairs(p, as) == {<<p, as[i]>> : i \in 1..Len(as)}

Init == t = NewTables(9, <<>>, Cap) /\ rel = {} /\ held = {} /\ last = [op |-> "none", ok |-> TRUE]
Next == \E c \in Calls :
  LET r == TableOp(t, c)
      left == IF c.op = "disassoc" THEN rel \ Pairs(c.p, c.as) ELSE rel
      orphans == IF c.op = "disassoc" THEN {a \in RangeOf(c.as) : ~\E p \in Asaps : <<p, a>> \in left} ELSE {}
  IN /\ t' = r.t
     /\ rel' = IF ~r.ok THEN rel ELSE IF c.op = "assoc" THEN rel \cup Pairs(c.p, c.as) ELSE left
     /\ held' = IF ~r.ok THEN held
                ELSE CASE c.op = "tadd" -> held \cup {c.a}
                       [] c.op = "tremove" -> held \ {c.a}
                       [] c.op = "assoc" -> held \cup RangeOf(c.as)
                       [] c.op = "disassoc" -> held \ orphans
                       [] OTHER -> held
     /\ last' = [op |-> c.op, ok |-> r.ok]
     /\ (Emit => PrintT("@@" \o ToJson([p |-> t, c |-> c, q |-> r.t])))
Spec == Init /\ [][Next]_vars

Inv == TablesInv(t)
\* C12, C13 in terms of the history
Contents == RangeOf(t.addrs) = held
Relation == {<<p, a>> \in Asaps \X Addrs : IsIn(a, Listed(t, p))} = rel
Lookups == \A p \in Asaps : \A a \in Addrs :
             /\ (<<p, a>> \in rel /\ a \in held) <=> IsIn(p, AsapsOf(t, a))
             /\ IsIn(p, AsapsOf(t, a)) <=> IsIn(Tsap(t, a), TsapsOf(t, p))
\* C14
FailedKeeps == [][last'.ok = FALSE => t' = t]_vars
\* disassociating from one group object leaves the relation of the others
Others == [][\A p \in Asaps : (last'.op \in {"assoc", "disassoc"} /\ Listed(t, p) = Listed(t', p)) =>
              \A a \in RangeOf(Listed(t, p)) : (IsIn(a, t.addrs) => IsIn(a, t'.addrs))]_vars
\* not vacuous: failures and both directions happen
=============================================================================
