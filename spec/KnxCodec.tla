------------------------------ MODULE KnxCodec ------------------------------
(* What encoding a message and decoding a frame mean, given
     m     the medium: "usb", "ip" or "tp"
     t     the tables (KnxTables)
     s     the session [rc, lc, ch]: receive counter (next expected from the
           gateway), send counter (current request), channel (0 = none)

   Decode(m, t, s, o) = [msgs, s, lenient]
     msgs     the messages, in order
     s        the session afterwards
     lenient  the frame is truncated inside its payload, or a status is not a
              defined one: an error is acceptable instead
   A frame without messages (msgs = <<>>) may be ignored or refused.

   Encode(m, t, s, x) = [ok, o, s]: the octets, or ok = FALSE for a message
   that must be refused.                                                     *)
EXTENDS KnxTables, KnxDptTypes, KnxCounters

Usb == "usb"  Ip == "ip"  Tp == "tp"
Sess(rc, lc, ch) == [rc |-> rc, lc |-> lc, ch |-> ch]

(***************************************************************************)
(* Messages                                                                *)
(***************************************************************************)
MGroup(svc, dir, p, d, v, st) == [k |-> "group", svc |-> svc, dir |-> dir, asap |-> p, dpt |-> d, val |-> v, st |-> st]
MProp(svc, dir, ob, pi, n, ix, dat, st) == [k |-> "prop", svc |-> svc, dir |-> dir, asap |-> 0, obj |-> ob, pid |-> pi,
                                            n |-> n, ix |-> ix, data |-> dat, st |-> st]
MUsb(what, text) == [k |-> "feature", what |-> what, text |-> text]
MTReq(ctr, st) == [k |-> "treq", ctr |-> ctr, st |-> st]
MTAck(ctr, st) == [k |-> "tack", ctr |-> ctr, st |-> st]
MConRes(ip, port, ia, st) == [k |-> "conres", ip |-> ip, port |-> port, ia |-> ia, st |-> st]
MCsRes(st) == [k |-> "csres", st |-> st]
MDisRes(ch, st) == [k |-> "disres", ch |-> ch, st |-> st]
MSearchRes(ip, port, ia) == [k |-> "searchres", ip |-> ip, port |-> port, ia |-> ia]
AppKinds == {"group", "prop"}

(***************************************************************************)
(* Link layer and above: cEMI                                              *)
(***************************************************************************)
\* message codes
LDataReq == 17 \* 11h
LDataInd == 41 \* 29h
LDataCon == 46 \* 2Eh

AppRes(msgs, lenient) == [msgs |-> msgs, lenient |-> lenient]
NoApp == AppRes(<<>>, TRUE)

\* o = octets of the link frame: ctrl1 ctrl2 src src dst dst len tpci apci payload...
Ctrl1(o) == o[1]  Ctrl2(o) == o[2]
Src(o) == Word(o[3], o[4])
Dst(o) == Word(o[5], o[6])
Tpci(o) == o[8]
Apci8(o) == o[9]
Apci10(o) == (o[8] % 4) * 256 + o[9]
IsGroupFrame(o) == Bit(Ctrl2(o), 7) = 1
Negative(o) == Bit(Ctrl1(o), 0)
\* unnumbered data: no control flag, not numbered, sequence 0
PlainData(o) == Tpci(o) < 4
Payload(o) == IF Len(o) > 9 THEN Drop(o, 9) ELSE <<Apci8(o)>>

GroupService(o) == LET a == Apci10(o) IN
  IF a = 0 THEN "read"
  ELSE IF a - (a % 64) = 64 THEN "response"
  ELSE IF a - (a % 64) = 128 THEN "write" ELSE "none"
PropService(o) == CASE Apci10(o) = 981 -> "read" [] Apci10(o) = 982 -> "response" [] Apci10(o) = 983 -> "write" [] OTHER -> "none"

GroupMsgs(t, dir, o) ==
  LET svc == GroupService(o)
      st == IF dir = "con" THEN Negative(o) ELSE -1
      rx == Receivers(t, Dst(o))
      val(d) == IF svc = "read" THEN <<>> ELSE Significant(d, Payload(o))
  IN IF Dst(o) = 0 \/ ~PlainData(o) \/ svc = "none" THEN <<>>
     ELSE [i \in 1..Len(rx) |-> MGroup(svc, dir, rx[i].asap, rx[i].dpt, val(rx[i].dpt), st)]
PropMsgs(t, dir, o) ==
  LET svc == PropService(o)
      p == Payload(o)
      st == IF dir = "con" THEN Negative(o) ELSE -1
      ours == IF dir = "ind" THEN Src(o) = t.ia ELSE Dst(o) = t.ia
      hdr == Word(p[3], p[4])
  IN IF ~PlainData(o) \/ svc = "none" \/ ~ours \/ Len(p) < 4 THEN <<>>
     ELSE <<MProp(svc, dir, p[1], p[2], hdr \div 4096, hdr % 4096, IF svc = "read" THEN <<>> ELSE Drop(p, 4), st)>>
\* cEMI frame: message code, additional information length, additional information, link frame
DecodeCemi(t, o) ==
  IF Len(o) < 2 THEN NoApp
  ELSE LET l == Drop(o, 2 + o[2])
           dir == CASE o[1] = LDataInd -> "ind" [] o[1] = LDataCon -> "con" [] OTHER -> "none"
       IN IF dir = "none" \/ Len(l) < 9 THEN NoApp
          ELSE AppRes(IF IsGroupFrame(l) THEN GroupMsgs(t, dir, l) ELSE PropMsgs(t, dir, l),
                      PlainData(l) /\ Len(l) < 9 + l[7] - 1)

(***************************************************************************)
(* USB HID report                                                          *)
(***************************************************************************)
FeatureMsgs(f, v) ==
  CASE f = 3 -> (CASE v = 0 -> <<MUsb("ConnectionStatus", "Disconnected")>>
                   [] v = 1 -> <<MUsb("ConnectionStatus", "Connected")>>
                   [] OTHER -> <<>>)
    [] f = 5 -> (CASE v = 1 -> <<MUsb("EMIType", "emi1")>>
                   [] v = 2 -> <<MUsb("EMIType", "emi2")>>
                   [] v = 3 -> <<MUsb("EMIType", "cEMI")>>
                   [] OTHER -> <<>>)
    [] OTHER -> <<>>
\* 01 | x3 | n | 00 08 bodylen protocol ... : all in one packet of n octets
DecodeUsb(t, o) ==
  IF Len(o) < 3 \/ o[1] # 1 \/ o[2] % 16 # 3 THEN NoApp
  ELSE LET r == Take(Drop(o, 3), o[3])
       IN IF Len(r) < 4 \/ r[1] # 0 \/ r[2] # 8 THEN NoApp
          ELSE LET b == Take(Drop(r, 4), Word(r[3], r[4]) + 4)
               IN IF Len(b) < 4 \/ b[3] # 0 \/ b[4] # 0 THEN NoApp
                  ELSE IF b[1] = 1 THEN (IF b[2] = 3 THEN DecodeCemi(t, Drop(b, 4)) ELSE NoApp)
                  ELSE IF b[1] = 15 THEN (IF b[2] \in {2, 4} /\ Len(b) >= 6 THEN AppRes(FeatureMsgs(b[5], b[6]), FALSE) ELSE NoApp)
                  ELSE NoApp

(***************************************************************************)
(* KNXnet/IP: the session rules                                            *)
(***************************************************************************)
ConnectStatuses == {0, 34, 35, 36}      \* 00 22 23 24
StateStatuses == {0, 33, 38, 39}        \* 00 21 26 27
TunnelStatuses == {0, 1, 2, 3}
\* the rules of the counters: KnxCounters
IpRes(msgs, s, lenient) == [msgs |-> msgs, s |-> s, lenient |-> lenient]
Refuse(s) == IpRes(<<>>, s, TRUE)
Ip4(o, i) == SubSeq(o, i, i + 3)
\* o = after 06 10 service: two length octets then the body
DecodeIp(t, s, f) ==
  IF Len(f) < 6 \/ f[1] # 6 \/ f[2] # 16 THEN Refuse(s)
  ELSE LET svc == Word(f[3], f[4])
           o == Drop(f, 6)
       IN CASE svc = 514 -> \* 0202 search response
               \* endpoint, then the device information block: length, type, medium, status, individual address
               IF Len(o) < 14 THEN Refuse(s)
               ELSE IpRes(<<MSearchRes(Ip4(o, 3), Word(o[7], o[8]), Word(o[13], o[14]))>>, s, FALSE)
            [] svc = 518 -> \* 0206 connect response
               IF Len(o) < 2 \/ o[2] \notin ConnectStatuses THEN Refuse(s)
               ELSE IF o[2] = 0 THEN
                 IF Len(o) < 14 THEN Refuse(s)
                 ELSE IpRes(<<MConRes(Ip4(o, 5), Word(o[9], o[10]), Word(o[13], o[14]), 0)>>, [s EXCEPT !.ch = o[1]], FALSE)
               ELSE IpRes(<<IF Len(o) >= 10 THEN MConRes(Ip4(o, 5), Word(o[9], o[10]), -1, o[2])
                            ELSE MConRes(<<>>, -1, -1, o[2])>>, s, FALSE)
            [] svc = 520 -> \* 0208 connection state response
               IF Len(o) < 2 \/ o[2] \notin StateStatuses THEN Refuse(s) ELSE IpRes(<<MCsRes(o[2])>>, s, FALSE)
            [] svc = 522 -> \* 020A disconnect response
               IF Len(o) < 2 \/ o[2] # 0 THEN Refuse(s) ELSE IpRes(<<MDisRes(o[1], 0)>>, [s EXCEPT !.ch = 0], FALSE)
            [] svc = 1056 -> \* 0420 tunnelling request
               IF Len(o) < 4 THEN Refuse(s)
               ELSE LET ctr == o[3]
                        c == Classify(s, ctr)
                        a == DecodeCemi(t, Drop(o, 4))
                    IN IF c = "expected"
                       THEN IpRes(<<MTReq(ctr, 0)>> \o a.msgs, s, a.lenient /\ (Len(o) < 6 \/ Len(o) < 15 + o[6] \/ Len(o) < (14 + o[6]) + o[13 + o[6]]))
                       ELSE IpRes(<<MTReq(ctr, IF c = "repeated" THEN 0 ELSE 3)>>, s, FALSE)
            [] svc = 1057 -> \* 0421 tunnelling acknowledgement
               IF Len(o) < 4 \/ o[4] \notin TunnelStatuses THEN Refuse(s)
               ELSE LET s2 == AckReceived(s, o[3], o[4]) IN IpRes(<<MTAck(s2.lc, o[4])>>, s2, FALSE)
            [] OTHER -> Refuse(s)

Decode(m, t, s, o) ==
  IF m = Ip THEN DecodeIp(t, s, o)
  ELSE LET a == DecodeUsb(t, o) IN IpRes(a.msgs, s, a.lenient)

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
EncRes(ok, o, s) == [ok |-> ok, o |-> o, s |-> s]
EncFail(s) == EncRes(FALSE, <<>>, s)

StdCtrl1 == 150 \* 96h: standard frame, broadcast, normal priority, acknowledge requested
StdCtrl2(group) == IF group THEN 224 ELSE 96 \* E0h / 60h: hop count 6
LinkFrame(group, dst, npdu) == <<StdCtrl1, StdCtrl2(group), 0, 0, Hi(dst), Lo(dst), Len(npdu) - 1>> \o npdu
Cemi(code, link) == <<code, 0>> \o link
WrapUsb(cemi) == <<1, 19, Len(cemi) + 8, 0, 8>> \o Be16(Len(cemi)) \o <<1, 3, 0, 0>> \o cemi
WrapIp(s, cemi) == <<6, 16, 4, 32>> \o Be16(Len(cemi) + 10) \o <<4, s.ch, s.lc, 0>> \o cemi
\* the length octets of the link frame and of the USB report can tell what follows them
LengthFits(m, link) == Len(link) - 8 <= 255 /\ (m = Usb => Len(link) + 10 <= 255)
Wrap(m, s, cemi) == CASE m = Usb -> WrapUsb(cemi) [] m = Ip -> WrapIp(s, cemi) [] OTHER -> cemi

\* transport + application octets of a group message
GroupApdu(apci, d, val) ==
  IF DptType[d].sub THEN <<0, apci + (LastN(val, 1)[1] % 64)>>
  ELSE <<0, apci>> \o LastN(val, DptType[d].size)
PropHeader(x) == <<x.obj, x.pid, (x.n * 16) + (x.ix \div 256), x.ix % 256>>
Hpai(ip, port) == <<8, 1>> \o ip \o Be16(port)

Encode(m, t, s, x) ==
  LET framed(code, link) == IF LengthFits(m, link) THEN EncRes(TRUE, Wrap(m, s, Cemi(code, link)), s) ELSE EncFail(s)
      group(code, npdu) == LET as == AddressesOf(t, x.asap) IN
                           IF as = <<>> THEN EncFail(s)
                           ELSE framed(code, LinkFrame(TRUE, as[1], npdu))
      indiv(npdu) == framed(LDataReq, LinkFrame(FALSE, t.ia, npdu))
  IN CASE x.k = "groupread" -> group(LDataReq, <<0, 0>>)
       [] x.k = "groupwrite" -> IF ~HasDpt(t, x.asap) THEN EncFail(s) ELSE group(LDataReq, GroupApdu(128, DptOf(t, x.asap), x.val))
       [] x.k = "groupwriteind" -> IF ~HasDpt(t, x.asap) THEN EncFail(s) ELSE group(LDataInd, GroupApdu(128, DptOf(t, x.asap), x.val))
       [] x.k = "propread" -> indiv(<<3, 213>> \o PropHeader(x))
       [] x.k = "propwrite" -> indiv(<<3, 215>> \o PropHeader(x) \o x.data)
       \* transport control: the connection to the device is opened, closed
       [] x.k = "tconnect" -> indiv(<<128>>)
       [] x.k = "tdisconnect" -> indiv(<<129>>)
       [] x.k = "connect" -> EncRes(TRUE, <<6, 16, 2, 5, 0, 26>> \o Hpai(x.ip, x.port) \o Hpai(x.ip2, x.port2) \o <<4, 4, 2, 0>>, s)
       [] x.k = "search" -> EncRes(TRUE, <<6, 16, 2, 1, 0, 14>> \o Hpai(x.ip, x.port), s)
       [] x.k = "connstate" -> EncRes(TRUE, <<6, 16, 2, 7, 0, 16, s.ch, 0>> \o Hpai(x.ip, x.port), s)
       [] x.k = "disconnect" -> EncRes(TRUE, <<6, 16, 2, 9, 0, 16, s.ch, 0>> \o Hpai(x.ip, x.port), s)
       [] x.k = "ack" -> LET ctr == IF Classify(s, x.ctr) = "sequence" THEN s.rc ELSE x.ctr
                         IN EncRes(TRUE, <<6, 16, 4, 33, 0, 10, 4, s.ch, ctr, x.st>>, AckSent(s, x.ctr))
       [] OTHER -> EncFail(s)
=============================================================================
