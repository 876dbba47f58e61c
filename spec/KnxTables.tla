----------------------------- MODULE KnxTables -----------------------------
(* The device configuration of the stack: group address table, association
   table and group object table, as pure operations on a record

     t.ia     individual address
     t.max    capacity of the address table
     t.addrs  the group addresses, strictly ascending (access point n = t.addrs[n])
     t.assoc  sequence of [asap, addrs] in the order group objects became known,
              addrs in order of association
     t.gobj   sequence of [asap, dpt] in order of insertion

   Every operation yields [ok, t]: a failed one (ok = FALSE) leaves t unchanged.
   Group object 0 stands for the individual address and is always known. *)
EXTENDS KnxOctets, FiniteSets

Res(ok, t) == [ok |-> ok, t |-> t]

RECURSIVE InsertSorted(_, _)
InsertSorted(s, a) == IF s = <<>> THEN <<a>>
                      ELSE IF a = Head(s) THEN s
                      ELSE IF a < Head(s) THEN <<a>> \o s
                      ELSE <<Head(s)>> \o InsertSorted(Tail(s), a)
RECURSIVE InsertAll(_, _)
InsertAll(s, as) == IF as = <<>> THEN s ELSE InsertAll(InsertSorted(s, Head(as)), Tail(as))
Without(s, a) == SelectSeq(s, LAMBDA x : x # a)
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Distinct(Without(Tail(s), Head(s)))
AppendNew(s, as) == Distinct(s \o as)

NewTables(ia, addrs, max) == [ia |-> ia, max |-> max, addrs |-> InsertAll(<<>>, addrs), assoc |-> <<>>, gobj |-> <<>>]

\* ---- address table ------------------------------------------------------
TableAdd(t, a) == IF IsIn(a, t.addrs) THEN Res(TRUE, t)
                  ELSE IF Len(t.addrs) >= t.max THEN Res(FALSE, t)
                  ELSE Res(TRUE, [t EXCEPT !.addrs = InsertSorted(@, a)])
TableRemove(t, a) == IF IsIn(a, t.addrs) THEN Res(TRUE, [t EXCEPT !.addrs = Without(@, a)]) ELSE Res(FALSE, t)
SetIa(t, ia) == Res(TRUE, [t EXCEPT !.ia = ia])
Tsap(t, a) == IF IsIn(a, t.addrs) THEN IndexOf(a, t.addrs) ELSE IF a = t.ia THEN 0 ELSE -1
AddressOf(t, n) == IF n = 0 THEN t.ia ELSE IF n \in 1..Len(t.addrs) THEN t.addrs[n] ELSE -1

\* ---- association table --------------------------------------------------
AssocIdx(t, p) == LET s == {i \in 1..Len(t.assoc) : t.assoc[i].asap = p} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
Known(t, p) == AssocIdx(t, p) # 0
Listed(t, p) == IF Known(t, p) THEN t.assoc[AssocIdx(t, p)].addrs ELSE <<>>
Associate(t, p, as) ==
  LET new == SelectSeq(Distinct(as), LAMBDA a : ~IsIn(a, t.addrs))
      i == AssocIdx(t, p)
  IN IF Len(t.addrs) + Len(new) > t.max THEN Res(FALSE, t)
     ELSE Res(TRUE, [t EXCEPT !.addrs = InsertAll(@, new),
                              !.assoc = IF i = 0 THEN Append(@, [asap |-> p, addrs |-> Distinct(as)])
                                        ELSE [@ EXCEPT ![i].addrs = AppendNew(@, as)]])
Disassociate(t, p, as) ==
  LET i == AssocIdx(t, p)
      rest == [t.assoc EXCEPT ![i].addrs = SelectSeq(@, LAMBDA a : ~IsIn(a, as))]
      used(a) == \E j \in 1..Len(rest) : IsIn(a, rest[j].addrs)
  IN IF i = 0 THEN Res(as = <<>>, t)
     ELSE IF \E j \in 1..Len(as) : ~IsIn(as[j], t.assoc[i].addrs) THEN Res(FALSE, t)
     ELSE Res(TRUE, [t EXCEPT !.assoc = rest,
                              !.addrs = SelectSeq(@, LAMBDA a : ~IsIn(a, as) \/ used(a))])
\* the lookups of the association table
AddressesOf(t, p) == SelectSeq(Listed(t, p), LAMBDA a : IsIn(a, t.addrs))
TsapsOf(t, p) == LET as == AddressesOf(t, p) IN [i \in 1..Len(as) |-> IndexOf(as[i], t.addrs)]
AsapsOf(t, a) == IF ~IsIn(a, t.addrs) THEN <<>>
                 ELSE LET hit == SelectSeq(t.assoc, LAMBDA e : IsIn(a, e.addrs))
                      IN [i \in 1..Len(hit) |-> hit[i].asap]
KnownAsaps(t) == <<0>> \o [i \in 1..Len(t.assoc) |-> t.assoc[i].asap]
FreeAsap(t) == LET used == RangeOf(KnownAsaps(t)) IN CHOOSE n \in 0..Cardinality(used) : n \notin used /\ \A m \in 0..(n - 1) : m \in used

\* ---- group object table -------------------------------------------------
GobjIdx(t, p) == LET s == {i \in 1..Len(t.gobj) : t.gobj[i].asap = p} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
HasDpt(t, p) == GobjIdx(t, p) # 0
DptOf(t, p) == t.gobj[GobjIdx(t, p)].dpt
SetDpt(t, p, d) == Res(TRUE, [t EXCEPT !.gobj = IF HasDpt(t, p) THEN [@ EXCEPT ![GobjIdx(t, p)].dpt = d]
                                                ELSE Append(@, [asap |-> p, dpt |-> d])])
UnsetDpt(t, p) == IF HasDpt(t, p) THEN Res(TRUE, [t EXCEPT !.gobj = SelectSeq(@, LAMBDA e : e.asap # p)]) ELSE Res(FALSE, t)

\* the group objects a telegram for address a must reach
Receivers(t, a) == SelectSeq(t.gobj, LAMBDA e : IsIn(e.asap, AsapsOf(t, a)))

\* ---- what always holds of a configuration -------------------------------
StrictlyAscending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
TablesInv(t) ==
  /\ StrictlyAscending(t.addrs)
  /\ Len(t.addrs) <= t.max
  /\ \A n \in 1..Len(t.addrs) : Tsap(t, AddressOf(t, n)) = n
  /\ \A i, j \in 1..Len(t.assoc) : t.assoc[i].asap = t.assoc[j].asap => i = j
  /\ \A i \in 1..Len(t.assoc) : t.assoc[i].addrs = Distinct(t.assoc[i].addrs)
  /\ \A i \in 1..Len(t.assoc) : \A k \in 1..Len(AddressesOf(t, t.assoc[i].asap)) :
        IsIn(t.assoc[i].asap, AsapsOf(t, AddressesOf(t, t.assoc[i].asap)[k]))
  /\ \A n \in 1..Len(t.addrs) : \A k \in 1..Len(AsapsOf(t, t.addrs[n])) :
        IsIn(n, TsapsOf(t, AsapsOf(t, t.addrs[n])[k]))
  /\ FreeAsap(t) \notin RangeOf(KnownAsaps(t))
=============================================================================
