------------------------------ MODULE MCCodec ------------------------------
(* Laws of one decode and one encode, on frames built from their parts.  The
   frames here are put together independently of how KnxCodec takes them apart,
   and the laws speak about the parts.  With Emit every case is printed, to be
   replayed into the real stack.                                              *)
EXTENDS KnxStack, TLC, Json

CONSTANTS Ctrl1s, Ctrl2s, Apcis, Datas, Adds, Deep, Emit
VARIABLES x, done
vars == <<x, done>>

R255 == 0..255
R1023 == 0..1023
FewApcis == {0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, 320, 512, 576, 640, 768, 896, 980, 981, 982, 983, 984, 1023}
FewCtrl == {0, 1, 60, 61, 128, 144, 150, 172, 173, 188, 189, 224, 254, 255}
FewData == {<<>>, <<200>>, <<1, 2>>, <<255, 0, 255, 128>>}
ManyData == UNION {[1..n -> {0, 1, 255}] : n \in 0..4} \cup {<<1, 2, 3, 4, 5>>, Zeros(14)}

(* ---- configurations ------------------------------------------------------- *)
Gobj(ds) == [i \in 1..Len(ds) |-> [asap |-> i, dpt |-> ds[i]]]
As(p, a) == [asap |-> p, addr |-> a]
Configs == <<
  \* two group objects on one address, one address of two, one group object without a type
  [ia |-> 4353, addrs |-> <<7>>, max |-> 9, gobj |-> Gobj(<<"DPT_Switch", "DPT_Value_Temp">>),
   assoc |-> <<As(2, 2305), As(1, 2305), As(1, 2306), As(3, 2306), As(1, 4353)>>],
  \* all sizes on their own addresses; the number of an address and of a group object coincide
  [ia |-> 3, addrs |-> <<>>, max |-> 255, gobj |-> Gobj(<<"DPT_Control_Dimming", "DPT_SceneControl", "DPT_Float_16", "DPT_Float_32">>),
   assoc |-> <<As(4, 1), As(3, 2), As(2, 4), As(1, 5), As(1, 3)>>],
  \* nothing
  [ia |-> 65535, addrs |-> <<>>, max |-> 2, gobj |-> <<>>, assoc |-> <<>>] >>
Table(c) == SetDpts(AssociateAll(NewTables(c.ia, c.addrs, c.max), c.assoc), c.gobj)
Tabs == [k \in 1..Len(Configs) |-> Table(Configs[k])]
S0 == Sess(7, 9, 3)

(* ---- frames from parts ----------------------------------------------------- *)
\* tp: six transport bits, ap: application service of 10 bits with its low data bits, cut: octets missing at the end
Link(f) == <<f.c1, f.c2, Hi(f.src), Lo(f.src), Hi(f.dst), Lo(f.dst), 1 + Len(f.data), f.tp * 4 + f.ap \div 256, f.ap % 256>> \o f.data
CemiF(f) == LET c == <<f.code, f.add>> \o [i \in 1..f.add |-> 255 - i] \o Link(f) IN SubSeq(c, 1, Len(c) - f.cut)
UsbF(c, pad) == <<1, 19, 8 + Len(c), 0, 8, 0, Len(c), 1, 3, 0, 0>> \o c \o Zeros(pad)
IpF(c, ch, ctr) == <<6, 16, 4, 32, 0, 10 + Len(c), 4, ch, ctr, 0>> \o c
Part == [k |-> "frame", cfg |-> 1, code |-> 41, add |-> 0, c1 |-> 188, c2 |-> 224, src |-> 4353, dst |-> 2305, tp |-> 0, ap |-> 129,
         data |-> <<>>, cut |-> 0]
Data4 == <<1, 2, 16, 5, 9>>
Dsts == {0, 1, 2, 3, 4, 5, 7, 2305, 2306, 2307, 4353, 65535}
FrameSets == <<
  \* every service on every destination, group or not
  {[Part EXCEPT !.cfg = k, !.code = c, !.c2 = c2, !.dst = d, !.ap = ap, !.data = da] :
      k \in 1..Len(Configs), c \in {41, 46}, c2 \in {96, 224}, d \in {1, 2, 2305, 2306, 4353}, ap \in Apcis, da \in {<<>>, Data4}}
  , {[Part EXCEPT !.cfg = k, !.code = c, !.dst = d, !.ap = ap, !.data = da] :
      k \in 1..Len(Configs), c \in {41, 46}, d \in Dsts, ap \in {0, 64, 65, 107, 128, 129, 171}, da \in Datas}
  \* control fields
  , {[Part EXCEPT !.code = c, !.c1 = c1, !.c2 = c2, !.ap = ap, !.data = da] :
      c \in {41, 46}, c1 \in Ctrl1s, c2 \in Ctrl2s, ap \in {0, 65, 128, 982}, da \in {<<>>, Data4}}
  , {[Part EXCEPT !.code = c, !.c1 = c1, !.c2 = 96, !.dst = 4353, !.ap = 982, !.data = Data4, !.add = ad] : c \in {41, 46}, c1 \in Ctrl1s, ad \in Adds}
  \* message codes, transport headers, additional information, truncation
  , {[Part EXCEPT !.code = c, !.c2 = c2, !.dst = 4353, !.ap = ap, !.data = Data4] : c \in 0..255, c2 \in {96, 224}, ap \in {129, 982}}
  , {[Part EXCEPT !.tp = tp, !.c2 = c2, !.dst = d, !.ap = ap, !.data = Data4] : tp \in 0..63, c2 \in {96, 224}, d \in {2305, 4353}, ap \in {0, 64, 128, 982}}
  , {[Part EXCEPT !.cut = n, !.add = ad, !.c2 = c2, !.dst = 4353, !.ap = ap, !.data = Data4] : n \in 1..15, ad \in Adds, c2 \in {96, 224}, ap \in {128, 982}}
  \* whose property telegram
  , {[Part EXCEPT !.cfg = k, !.code = c, !.c2 = 96, !.src = s, !.dst = d, !.ap = ap, !.data = <<9, 8, 7 * 16 + n, 255 - n>> \o SubSeq(Data4, 1, n)] :
      k \in 1..Len(Configs), c \in {41, 46}, s \in {3, 4353, 65535, 0}, d \in {3, 4353, 65535, 0, 2305}, ap \in {981, 982, 983}, n \in 0..4} >>

(* ---- other frames ----------------------------------------------------------- *)
Features == {[k |-> "usb", o |-> <<1, 19, 10, 0, 8, 0, 2, p, sv, 0, 0, f, v>>] : p \in {1, 15}, sv \in 0..5, f \in 0..8, v \in 0..5}
Eps == {<<10, 0, 0, 7>>, <<0, 0, 0, 0>>, <<255, 254, 1, 128>>}
Ports == {0, 3671, 65535}
CoreRes(svc, b) == <<6, 16, Hi(svc), Lo(svc), 0, 6 + Len(b)>> \o b
Ep(ip, po) == <<8, 1>> \o ip \o <<Hi(po), Lo(po)>>
Responses == {[k |-> "core", o |-> CoreRes(514, Ep(ip, po) \o <<54, 1, 2, 0, Hi(ia), Lo(ia)>> \o Zeros(48)), r |-> MSearchRes(ip, po, ia)] : ip \in Eps, po \in Ports, ia \in {0, 4361, 65535}}
   \cup {[k |-> "core", o |-> CoreRes(518, <<ch, 0>> \o Ep(ip, po) \o <<4, 4, Hi(ia), Lo(ia)>>), r |-> MConRes(ip, po, ia, 0)] : ch \in {0, 1, 255}, ip \in Eps, po \in Ports, ia \in {0, 4361}}
   \* refused: without or with the endpoint; other statuses are none
   \cup {[k |-> "core", o |-> CoreRes(518, <<ch, st>>), r |-> IF st \in {34, 35, 36} THEN MConRes(<<>>, -1, -1, st) ELSE [k |-> "none"]] : ch \in {0, 7, 255}, st \in {1, 33, 34, 35, 36, 37, 38, 39, 255}}
   \cup {[k |-> "core", o |-> CoreRes(518, <<ch, st>> \o Ep(ip, po)), r |-> MConRes(ip, po, -1, st)] : ch \in {0, 255}, st \in {34, 36}, ip \in Eps, po \in Ports}
   \cup {[k |-> "core", o |-> CoreRes(520, <<ch, st>>), r |-> [k |-> "none"]] : ch \in {0, 3}, st \in {1, 34, 35, 36, 37, 40, 255}}
   \cup {[k |-> "core", o |-> CoreRes(520, <<ch, st>>), r |-> MCsRes(st)] : ch \in {0, 3, 4}, st \in {0, 33, 38, 39}}
   \cup {[k |-> "core", o |-> CoreRes(522, <<ch, 0>>), r |-> MDisRes(ch, 0)] : ch \in {0, 3, 4}}
   \cup {[k |-> "core", o |-> CoreRes(svc, <<3, 0>> \o Ep(<<1, 2, 3, 4>>, 5) \o <<4, 4, 17, 9>>), r |-> [k |-> "none"]] :
            svc \in {256 * h + l : h \in {2, 3, 4, 5}, l \in 0..40} \ {514, 518, 520, 522, 1056, 1057}}

(* ---- messages ----------------------------------------------------------------- *)
Vals == {<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 0, 15>>, <<1, 2, 3, 4>>, <<255, 255, 255, 255>>, <<127, 127, 128, 0>>, <<0, 0, 128, 64>>}
Groups == {[k |-> "groupread", asap |-> p] : p \in 1..5}
          \cup {[k |-> w, asap |-> p, val |-> v] : w \in {"groupwrite", "groupwriteind"}, p \in 1..5, v \in Vals}
Props == {[k |-> "propread", asap |-> 0, obj |-> ob, pid |-> pi, n |-> n, ix |-> ix] : ob \in {0, 255}, pi \in {1, 254}, n \in {0, 1, 15}, ix \in {0, 256, 4095}}
         \cup {[k |-> "propwrite", asap |-> 0, obj |-> 3, pid |-> 9, n |-> n, ix |-> ix, data |-> SubSeq(Data4, 1, m)] : n \in {1, 15}, ix \in {1, 4095}, m \in 0..5}
         \* lengths about what the length octets of a report and of a link frame can tell
         \cup {[k |-> "propwrite", asap |-> 0, obj |-> 3, pid |-> 9, n |-> 1, ix |-> 1, data |-> Zeros(m)] : m \in {229, 230, 231, 232, 233, 234, 235, 248, 249, 250, 251, 252, 300}}
Controls == {[k |-> "tconnect"], [k |-> "tdisconnect"]}
Cores == {[k |-> "connect", ip |-> i, port |-> p, ip2 |-> j, port2 |-> q] : i \in Eps, j \in Eps, p \in Ports, q \in Ports}
         \cup {[k |-> w, ip |-> i, port |-> p] : w \in {"search", "connstate", "disconnect"}, i \in Eps, p \in Ports}
Sent == {[k |-> "enc", cfg |-> k, x |-> m] : k \in 1..Len(Configs), m \in Groups \cup Props \cup Controls} \cup {[k |-> "enc", cfg |-> 1, x |-> m] : m \in Cores}

(* ---- the cases: in parts, so that TLC's workers share them ------------------------ *)
Parts == CASE Deep = "frames" -> Len(FrameSets) [] OTHER -> 3
PartOf(i) == CASE Deep = "frames" -> FrameSets[i] [] i = 1 -> Features [] i = 2 -> Responses [] OTHER -> Sent
Init == x \in [k : {"part"}, i : 1..Parts] /\ done = FALSE
OnUsb(f) == Decode(Usb, Tabs[f.cfg], S0, UsbF(CemiF(f), 0))
OnIp(f) == Decode(Ip, Tabs[f.cfg], S0, IpF(CemiF(f), 3, 7))
Show(cfg, m, c) == PrintT("@@" \o ToJson([p |-> [cfg |-> cfg, m |-> m], c |-> c, q |-> 0]))
ShowConfigs == \A k \in 1..Len(Configs) : Show(k, "all", [op |-> "cfg", t |-> Configs[k]])
Next == \/ x.k = "part" /\ (Emit => ShowConfigs) /\ x' \in PartOf(x.i) /\ UNCHANGED done
        \/ /\ x.k # "part" /\ ~done /\ Emit /\ done' = TRUE /\ UNCHANGED x
           /\ (CASE x.k = "frame" -> /\ Show(x.cfg, Usb, [op |-> "dec", f |-> UsbF(CemiF(x), 0)])
                                          /\ Show(x.cfg, Ip, [op |-> "dec", f |-> IpF(CemiF(x), 3, 7)])
                      [] x.k = "usb" -> Show(1, Usb, [op |-> "dec", f |-> x.o])
                      [] x.k = "core" -> Show(1, Ip, [op |-> "dec", f |-> x.o])
                      [] x.k = "enc" -> /\ Show(x.cfg, Ip, [op |-> "enc", x |-> x.x])
                                        /\ (IF x.x.k \in {"connect", "search", "connstate", "disconnect"} THEN TRUE
                                            ELSE Show(x.cfg, Usb, [op |-> "enc", x |-> x.x]) /\ Show(x.cfg, Tp, [op |-> "enc", x |-> x.x])))
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------------ *)
IsF == x.k = "frame" /\ ~done
Conf == Configs[x.cfg]
ToGroup == x.c2 >= 128
Whole == x.cut = 0
\* written down from the configuration itself
Assoc(p, a) == \E i \in 1..Len(Conf.assoc) : Conf.assoc[i] = As(p, a)
Typed(p) == p <= Len(Conf.gobj) /\ p > 0
TypeOf(p) == Conf.gobj[p].dpt
Svc == CASE x.ap = 0 -> "read" [] x.ap \in 64..127 -> "response" [] x.ap \in 128..191 -> "write" [] OTHER -> "none"
PSvc == CASE x.ap = 981 -> "read" [] x.ap = 982 -> "response" [] x.ap = 983 -> "write" [] OTHER -> "none"
Dir == IF x.code = 41 THEN "ind" ELSE "con"
ForUs == x.code \in {41, 46} /\ x.tp = 0 /\ ~(ToGroup /\ x.dst = 0)
Apps(r) == SelectSeq(r.msgs, LAMBDA m : m.k \in AppKinds)
AppSet(r) == {Apps(r)[i] : i \in 1..Len(Apps(r))}
U == OnUsb(x)
I == OnIp(x)

C01 == (IsF /\ Whole /\ ForUs /\ ToGroup /\ Svc # "none") =>
         LET ps == {p \in 1..9 : Assoc(p, x.dst) /\ Typed(p)} IN
         /\ Len(Apps(U)) = Cardinality(ps)
         /\ {m.asap : m \in AppSet(U)} = ps
         /\ \A m \in AppSet(U) : m.dpt = TypeOf(m.asap)
C03 == (IsF /\ Whole /\ ForUs /\ ToGroup /\ Svc \in {"response", "write"}) =>
         \A m \in AppSet(U) :
           CASE DptType[m.dpt].sub /\ x.data = <<>> -> m.val = <<(x.ap % 64) % Pow2(DptType[m.dpt].bits)>>
             [] ~DptType[m.dpt].sub /\ Len(x.data) = DptType[m.dpt].size -> m.val = x.data
             [] OTHER -> TRUE
C04 == (IsF /\ Whole) => \A m \in AppSet(U) : m.dir = Dir /\ m.svc = (IF m.k = "group" THEN Svc ELSE PSvc)
C04n == (IsF /\ (IF ToGroup THEN Svc = "none" ELSE PSvc = "none")) => (Apps(U) = <<>> /\ Apps(I) = <<>>)
C05 == IsF => \A m \in AppSet(U) : m.st = (IF Dir = "con" THEN x.c1 % 2 ELSE -1)
C07 == IsF => /\ Apps(U) = Apps(I)
              /\ (ForUs /\ Whole) =>
                   /\ Apps(U) = Apps(OnUsb([x EXCEPT !.add = 0, !.c1 = 188 + (x.c1 % 2), !.c2 = IF ToGroup THEN 224 ELSE 96,
                                                     !.src = IF ToGroup THEN 1 ELSE @]))
                   /\ \A n \in {1, 8} : Decode(Usb, Tabs[x.cfg], S0, UsbF(CemiF(x), n)) = U
C08 == IsF => (/\ (~ForUs \/ x.cut > Len(x.data)) => (Apps(U) = <<>> /\ Apps(I) = <<>>)
               /\ U.s = S0 /\ I.s = S0)
C11 == (IsF /\ Whole /\ ForUs /\ ~ToGroup) =>
         LET ours == IF Dir = "ind" THEN x.src = Conf.ia ELSE x.dst = Conf.ia
             m == Apps(U)[1]
         IN IF ~ours \/ PSvc = "none" \/ Len(x.data) < 4 THEN Apps(U) = <<>>
            ELSE /\ Len(Apps(U)) = 1
                 /\ m.obj = x.data[1] /\ m.pid = x.data[2] /\ m.n * 4096 + m.ix = x.data[3] * 256 + x.data[4] /\ m.ix < 4096
                 /\ m.data = (IF PSvc = "read" THEN <<>> ELSE Drop(x.data, 4))
\* one feature report, one message
C09 == (x.k = "usb") =>
         LET r == Decode(Usb, Tabs[1], S0, x.o).msgs
             told == x.o[8] = 15 /\ x.o[9] \in {2, 4}
             f == x.o[12] v == x.o[13]
         IN IF told /\ f = 3 /\ v \in {0, 1} THEN r = <<MUsb("ConnectionStatus", IF v = 1 THEN "Connected" ELSE "Disconnected")>>
            ELSE IF told /\ f = 5 /\ v \in 1..3 THEN r = <<MUsb("EMIType", CASE v = 1 -> "emi1" [] v = 2 -> "emi2" [] v = 3 -> "cEMI")>>
            ELSE r = <<>>
C22 == (x.k = "core") => LET r == Decode(Ip, Tabs[1], S0, x.o) IN r.msgs = (IF x.r.k = "none" THEN <<>> ELSE <<x.r>>) /\ (x.r.k = "none" => r.s = S0)
\* what is sent: e(m) on medium m
IsE == x.k = "enc" /\ ~done
E(m) == Encode(m, Tabs[x.cfg], S0, x.x)
IsGroupMsg == x.x.k \in {"groupread", "groupwrite", "groupwriteind"}
IsCoreMsg == x.x.k \in {"connect", "search", "connstate", "disconnect"}
Sending(p) == LET s == SelectSeq(Conf.assoc, LAMBDA e : e.asap = p) IN IF s = <<>> THEN -1 ELSE s[1].addr
Mandatory == ~IsGroupMsg \/ (Sending(x.x.asap) # -1 /\ (x.x.k = "groupread" \/ Typed(x.x.asap)))
\* octets of the application layer after the first
Octets == IF x.x.k = "propwrite" THEN 5 + Len(x.x.data) ELSE 0
C02 == (IsE /\ ~IsCoreMsg) =>
         /\ E(Tp).ok <=> (Mandatory /\ Octets <= 255)
         /\ E(Ip).ok <=> E(Tp).ok
         /\ E(Usb).ok <=> (E(Tp).ok /\ Octets + 10 + 8 <= 255)
         /\ E(Tp).ok => LET o == E(Tp).o IN
              IF IsGroupMsg THEN o[4] >= 128 /\ o[7] * 256 + o[8] = Sending(x.x.asap)
              ELSE o[4] < 128 /\ o[7] * 256 + o[8] = Conf.ia
C06 == (IsE /\ ~IsCoreMsg /\ E(Tp).ok) =>
         LET o == E(Tp).o u == E(Usb).o i == E(Ip).o IN
         /\ \A j \in 1..Len(o) : o[j] \in 0..255
         /\ o[1] = (IF x.x.k = "groupwriteind" THEN 41 ELSE 17) /\ o[2] = 0 /\ o[3] \div 128 = 1
         /\ Len(o) = 9 + 1 + o[9]
         /\ E(Usb).ok => (u[3] = Len(u) - 3 /\ u[3] <= 255 /\ u[6] * 256 + u[7] = Len(o) /\ SubSeq(u, 12, Len(u)) = o)
         /\ i[5] * 256 + i[6] = Len(i) /\ i[7] = 4 /\ SubSeq(i, 11, Len(i)) = o
         /\ i[8] = S0.ch /\ i[9] = S0.lc
C10 == (IsE /\ x.x.k \in {"propread", "propwrite"} /\ Octets <= 255) =>
         /\ E(Tp) = Encode(Tp, [Tabs[x.cfg] EXCEPT !.addrs = <<>>, !.assoc = <<>>, !.gobj = <<>>], S0, x.x)
         /\ LET o == E(Tp).o IN
            /\ (o[10] % 4) * 256 + o[11] = (IF x.x.k = "propread" THEN 981 ELSE 983)
            /\ o[12] = x.x.obj /\ o[13] = x.x.pid /\ o[14] \div 16 = x.x.n /\ (o[14] % 16) * 256 + o[15] = x.x.ix
            /\ Drop(o, 15) = (IF x.x.k = "propread" THEN <<>> ELSE x.x.data)
C22e == (IsE /\ IsCoreMsg) =>
         LET o == E(Ip).o
             at(j, ip, po) == SubSeq(o, j, j + 7) = <<8, 1>> \o ip \o <<po \div 256, po % 256>>
         IN /\ o[1] = 6 /\ o[2] = 16 /\ o[5] * 256 + o[6] = Len(o)
            /\ o[3] * 256 + o[4] = (CASE x.x.k = "search" -> 513 [] x.x.k = "connect" -> 517 [] x.x.k = "connstate" -> 519 [] OTHER -> 521)
            /\ CASE x.x.k = "connect" -> at(7, x.x.ip, x.x.port) /\ at(15, x.x.ip2, x.x.port2) /\ Len(o) = 26
                 [] x.x.k = "search" -> at(7, x.x.ip, x.x.port) /\ Len(o) = 14
                 [] OTHER -> o[7] = S0.ch /\ at(9, x.x.ip, x.x.port) /\ Len(o) = 16
\* a control request of the transport layer: no application octets, to the own device whatever the tables hold
C37 == (IsE /\ x.x.k \in {"tconnect", "tdisconnect"}) =>
         LET o == E(Tp).o IN
         /\ Len(o) = 10 /\ o[9] = 0 /\ o[10] \div 64 = 2 /\ (o[10] \div 4) % 16 = 0 /\ o[10] % 4 = (IF x.x.k = "tconnect" THEN 0 ELSE 1)
         /\ \A m \in {Usb, Ip, Tp} : E(m) = Encode(m, [Tabs[x.cfg] EXCEPT !.addrs = <<>>, !.assoc = <<>>, !.gobj = <<>>], S0, x.x)
\* C03: from the sender to a receiver with the same configuration, as an indication
Trip == (IsE /\ x.x.k \in {"groupwrite", "groupwriteind"} /\ E(Usb).ok) =>
          LET o == E(Usb).o
              back == Decode(Usb, Tabs[x.cfg], S0, [o EXCEPT ![12] = 41]).msgs
              mine == SelectSeq(back, LAMBDA m : m.asap = x.x.asap)
          IN Len(mine) = 1 /\ mine[1].svc = "write" /\ mine[1].val = Significant(TypeOf(x.x.asap), x.x.val)
Untouched == IsE => (E(Ip).s = S0 /\ E(Usb).s = S0)
=============================================================================
