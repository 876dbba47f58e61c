------------------------------ MODULE BadTables ------------------------------
(* Wrong definitions for MCTables (see BadCodec).                              *)
EXTENDS MCTables

\* new addresses at the end
RECURSIVE BadInsertSorted(_, _)
BadInsertSorted(ss1, a) == IF IsIn(a, ss1) THEN ss1 ELSE Append(ss1, a)
BadAdd(tt, a) == IF IsIn(a, tt.addrs) THEN Res(TRUE, tt) ELSE Res(TRUE, [tt EXCEPT !.addrs = InsertSorted(@, a)])
BadTableAdd(tt, a) == IF Len(tt.addrs) >= tt.max THEN Res(FALSE, [tt EXCEPT !.addrs = Without(@, a)]) ELSE Res(TRUE, [tt EXCEPT !.addrs = InsertSorted(@, a)])
\* removing an address breaks its associations
BadTableRemove(tt, a) == IF IsIn(a, tt.addrs)
                        THEN Res(TRUE, [tt EXCEPT !.addrs = Without(@, a), !.assoc = [i \in 1..Len(@) |-> [@[i] EXCEPT !.addrs = Without(@, a)]]])
                        ELSE Res(FALSE, tt)
\* only the first address is associated again
BadAppendNew(ss1, as) == Distinct(ss1 \o Take(as, 1))
\* the addresses leave the table though others are associated with them
BadDisassociate(tt, p, as) ==
  LET i == AssocIdx(tt, p)
      rest == [tt.assoc EXCEPT ![i].addrs = SelectSeq(@, LAMBDA a : ~IsIn(a, as))]
  IN IF i = 0 THEN Res(as = <<>>, tt)
     ELSE IF \E j \in 1..Len(as) : ~IsIn(as[j], tt.assoc[i].addrs) THEN Res(FALSE, tt)
     ELSE Res(TRUE, [tt EXCEPT !.assoc = rest, !.addrs = SelectSeq(@, LAMBDA a : ~IsIn(a, as))])
\* what came before the address which is not associated is gone
BadPartly(tt, p, as) ==
  LET i == AssocIdx(tt, p)
      rest == [tt.assoc EXCEPT ![i].addrs = SelectSeq(@, LAMBDA a : ~IsIn(a, as))]
      used(a) == \E j \in 1..Len(rest) : IsIn(a, rest[j].addrs)
  IN IF i = 0 THEN Res(as = <<>>, tt)
     ELSE Res(\A j \in 1..Len(as) : IsIn(as[j], tt.assoc[i].addrs),
              [tt EXCEPT !.assoc = rest, !.addrs = SelectSeq(@, LAMBDA a : ~IsIn(a, as) \/ used(a))])
\* an address stays in the table though nothing is associated with it any more
BadKeeps(tt, p, as) ==
  LET i == AssocIdx(tt, p)
      rest == [tt.assoc EXCEPT ![i].addrs = SelectSeq(@, LAMBDA a : ~IsIn(a, as))]
  IN IF i = 0 THEN Res(as = <<>>, tt)
     ELSE IF \E j \in 1..Len(as) : ~IsIn(as[j], tt.assoc[i].addrs) THEN Res(FALSE, tt)
     ELSE Res(TRUE, [tt EXCEPT !.assoc = rest])
\* associations are found whether the address is held or not
BadAsapsOf(tt, a) == LET hit == SelectSeq(tt.assoc, LAMBDA e : IsIn(a, e.addrs)) IN [i \in 1..Len(hit) |-> hit[i].asap]
BadTsapsOf(tt, p) == LET as == AddressesOf(tt, p) IN [i \in 1..Len(as) |-> i]
BadFreeAsap(tt) == Len(tt.assoc) + 1
=============================================================================
