------------------------------ MODULE KnxLink ------------------------------
(* The view of a link frame: its first nine octets

     ctrl1 ctrl2 source(2) destination(2) length tpci apci

   as fields which can be read and set.  LinkView(o) reads them all, PutField(o, f, v)
   is the frame after setting field f.                                       *)
EXTENDS KnxOctets

Kinds9 == <<"broadcast", "group", "taggroup", "individual", "connected", "connect", "disconnect", "ack", "nack">>
\* the kind of transport data unit
UnitKind(o) ==
  LET grp == Bit(o[2], 7) = 1
      ctl == Bit(o[8], 7)  num == Bit(o[8], 6)  seq == Bits(o[8], 2, 4)  low == Bits(o[8], 0, 2)
  IN CASE grp /\ ctl = 0 /\ num = 0 /\ seq = 0 -> IF Word(o[5], o[6]) = 0 THEN "broadcast" ELSE "group"
       [] grp /\ ctl = 0 /\ num = 0 /\ seq = 1 -> "taggroup"
       [] ~grp /\ ctl = 0 /\ num = 0 /\ seq = 0 -> "individual"
       [] ~grp /\ ctl = 0 /\ num = 1 -> "connected"
       [] ~grp /\ ctl = 1 /\ num = 0 /\ low = 0 -> "connect"
       [] ~grp /\ ctl = 1 /\ num = 0 /\ low = 1 -> "disconnect"
       [] ~grp /\ ctl = 1 /\ num = 1 /\ low = 2 -> "ack"
       [] ~grp /\ ctl = 1 /\ num = 1 /\ low = 3 -> "nack"
       [] OTHER -> "none"
LinkView(o) == [source |-> Word(o[3], o[4]), destination |-> Word(o[5], o[6]), address_type |-> Bit(o[2], 7), connected |-> Bit(o[8], 7) = 1,
            status |-> Bit(o[1], 0), apci |-> Bits(o[8], 0, 2) * 256 + o[9], apci_value |-> o[9], tpci |-> o[8], data |-> o[9] % 64, nsdu |-> UnitKind(o)]
\* what follows the header: the octets after it, or the application octet, which then holds the data
AfterHeader(o) == IF Len(o) > 9 THEN Drop(o, 9) ELSE <<o[9]>>

SetBits(b, lo, n, v) == b - (Bits(b, lo, n) * Pow2(lo)) + (v * Pow2(lo))
SetUnit(o, ctl, num) == [o EXCEPT ![8] = SetBits(SetBits(@, 7, 1, ctl), 6, 1, num)]
PutField(o, f, v) ==
  CASE f = "source" -> [o EXCEPT ![3] = Hi(v), ![4] = Lo(v)]
    [] f = "destination" -> [o EXCEPT ![5] = Hi(v), ![6] = Lo(v)]
    [] f = "address_type" -> [o EXCEPT ![2] = SetBits(@, 7, 1, v)]
    [] f = "connected" -> [o EXCEPT ![8] = SetBits(@, 7, 1, v)]
    [] f = "apci" -> [o EXCEPT ![8] = SetBits(@, 0, 2, v \div 256), ![9] = v % 256]
    [] f = "data" -> [o EXCEPT ![9] = SetBits(@, 0, 6, v)]
    [] f = "nsdu" -> \* v: position in Kinds9
       CASE v \in {1, 2, 4} -> [SetUnit(o, 0, 0) EXCEPT ![8] = SetBits(@, 2, 4, 0)]
         [] v = 3 -> [SetUnit(o, 0, 0) EXCEPT ![8] = SetBits(@, 2, 4, 1)]
         [] v = 5 -> SetUnit(o, 0, 1)
         [] v \in {6, 7} -> [SetUnit(o, 1, 0) EXCEPT ![8] = SetBits(@, 0, 2, v - 6)]
         [] v \in {8, 9} -> [SetUnit(o, 1, 1) EXCEPT ![8] = SetBits(@, 0, 2, v - 6)]
=============================================================================
