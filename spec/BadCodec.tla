------------------------------ MODULE BadCodec ------------------------------
(* Wrong definitions.  Put in the place of those of the specification, one at a
   time, each must violate the law named beside it in harness/plan.py: the laws
   of MCCodec say something.                                                   *)
EXTENDS MCCodec

\* only the first group object of an address is reached
BadReceivers(tt, a) == LET r == SelectSeq(tt.gobj, LAMBDA e : IsIn(e.asap, AsapsOf(tt, a))) IN IF r = <<>> THEN r ELSE <<r[1]>>
\* a group object without a type is taken for a switch
BadUntyped(tt, a) == LET ps == AsapsOf(tt, a) IN [i \in 1..Len(ps) |-> [asap |-> ps[i], dpt |-> IF HasDpt(tt, ps[i]) THEN DptOf(tt, ps[i]) ELSE "DPT_Switch"]]
\* the bits of the service stay in a small value
BadSignificant(d, oo) == LET ty == DptType[d] IN IF ty.sub THEN <<LastN(oo, 1)[1]>> ELSE LastN(oo, ty.size)
\* the octets of a value the other way round
BadFront(d, oo) == LET ty == DptType[d] l == LastN(oo, ty.size) IN IF ty.sub THEN <<LastN(oo, 1)[1] % Pow2(ty.bits)>> ELSE [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
BadGroupService(oo) == LET a == Apci10(oo) IN IF a = 0 THEN "read" ELSE IF a \in 64..191 THEN "write" ELSE "none"
\* the two high bits of the service are not looked at
BadLowService(oo) == LET a == Apci8(oo) IN IF a = 0 THEN "read" ELSE IF a \in 64..127 THEN "response" ELSE IF a \in 128..191 THEN "write" ELSE "none"
BadPropService(oo) == CASE Apci10(oo) = 981 -> "read" [] Apci10(oo) = 982 -> "write" [] Apci10(oo) = 983 -> "response" [] OTHER -> "none"
BadNegative(oo) == 1 - Bit(Ctrl1(oo), 0)
\* frames which are not in standard format are not understood
BadStandard(oo) == Tpci(oo) < 4 /\ Bit(Ctrl1(oo), 7) = 1
BadPlainData(oo) == Tpci(oo) < 64
\* the additional information is of a fixed length
BadDecodeCemi(tt, oo) ==
  IF Len(oo) < 2 THEN NoApp
  ELSE LET l == Drop(oo, 2)
           dir == CASE oo[1] = LDataInd -> "ind" [] oo[1] = LDataCon -> "con" [] OTHER -> "none"
       IN IF dir = "none" \/ Len(l) < 9 THEN NoApp
          ELSE AppRes(IF IsGroupFrame(l) THEN GroupMsgs(tt, dir, l) ELSE PropMsgs(tt, dir, l), FALSE)
\* any message code is an indication
BadCodes(tt, oo) ==
  IF Len(oo) < 2 THEN NoApp
  ELSE LET l == Drop(oo, 2 + oo[2])
           dir == IF oo[1] = LDataCon THEN "con" ELSE "ind"
       IN IF Len(l) < 9 THEN NoApp
          ELSE AppRes(IF IsGroupFrame(l) THEN GroupMsgs(tt, dir, l) ELSE PropMsgs(tt, dir, l), FALSE)
\* property telegrams of other devices are taken for ours
BadPropMsgs(tt, dir, oo) ==
  LET svc == PropService(oo) p == Payload(oo) st == IF dir = "con" THEN Negative(oo) ELSE -1 hdr == Word(p[3], p[4])
  IN IF ~PlainData(oo) \/ svc = "none" \/ Len(p) < 4 THEN <<>>
     ELSE <<MProp(svc, dir, p[1], p[2], hdr \div 4096, hdr % 4096, IF svc = "read" THEN <<>> ELSE Drop(p, 4), st)>>
BadFeatureMsgs(f, v) == CASE f \in {1, 3} -> <<MUsb("ConnectionStatus", IF v = 1 THEN "Connected" ELSE "Disconnected")>>
                          [] f = 5 /\ v \in 1..3 -> <<MUsb("EMIType", CASE v = 1 -> "emi1" [] v = 2 -> "emi2" [] OTHER -> "cEMI")>>
                          [] OTHER -> <<>>
BadIp4(oo, i) == SubSeq(oo, i + 1, i + 3) \o <<oo[i]>>
BadConnectStatuses == {0, 33}
\* the sending address is the lowest
BadAddressesOf(tt, p) == SelectSeq(tt.addrs, LAMBDA a : IsIn(a, Listed(tt, p)))
BadWrapUsb(cemi) == <<1, 19, Len(cemi) + 8, 0, 8>> \o Be16(Len(cemi) + 3) \o <<1, 3, 0, 0>> \o cemi
BadWrapIp(ss1, cemi) == <<6, 16, 4, 32>> \o Be16(Len(cemi) + 10) \o <<4, ss1.ch, ss1.rc, 0>> \o cemi
BadLengthFits(m, link) == TRUE
BadPropHeader(xx) == <<xx.obj, xx.pid, ((xx.n * 16) + (xx.ix \div 256)) % 256, (xx.ix % 256) \div 2>>
BadHpai(ip, port) == <<8, 1>> \o ip \o <<Lo(port), Hi(port)>>
BadGroupApdu(apci, d, val) == IF DptType[d].sub THEN <<0, apci + (LastN(val, 1)[1] % 16)>> ELSE <<0, apci>> \o Take(val, DptType[d].size)
BadEncRes(ok, oo, ss1) == [ok |-> ok, o |-> oo, s |-> IF ok THEN [ss1 EXCEPT !.lc = Inc(@)] ELSE ss1]
\* a request of the own device goes to whatever address is first
BadLinkFrame(group, dst, npdu) == <<StdCtrl1, StdCtrl2(TRUE), 0, 0, Hi(dst), Lo(dst), Len(npdu) - 1>> \o npdu
BadLength(group, dst, npdu) == <<StdCtrl1, StdCtrl2(group), 0, 0, Hi(dst), Lo(dst), Len(npdu)>> \o npdu
=============================================================================
