------------------------------ MODULE KnxText ------------------------------
(* What the tables and the messages say of themselves: the texts a program
   prints and logs.  names is a sequence of [asap, name]; a group object which
   is not in it has no name.                                                 *)
EXTENDS KnxTables, TLC

HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
HexDigitText(n, i) == HexDigits[((n \div i) % 16) + 1]
Hex4(n) == "0x" \o HexDigitText(n, 4096) \o HexDigitText(n, 256) \o HexDigitText(n, 16) \o HexDigitText(n, 1)
IndividualText(a) == Hex4(a)
GroupText(a) == "(" \o Hex4(a) \o " " \o ToString(a \div 2048) \o "/" \o ToString(a % 2048)
                \o " " \o ToString(a \div 2048) \o "/" \o ToString((a \div 256) % 8) \o "/" \o ToString(a % 256) \o ")"
NameOf(names, p) == LET s == SelectSeq(names, LAMBDA e : e.asap = p) IN IF s = <<>> THEN "" ELSE s[1].name
AsapText(names, p) == IF NameOf(names, p) = "" THEN ToString(p) ELSE ToString(p) \o " (" \o NameOf(names, p) \o ")"
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
GroupList(as) == "[" \o Join([i \in 1..Len(as) |-> GroupText(as[i])], ", ") \o "]"

(* a text is its sequence of lines; the rows between its first and its last lines come in any order unless they are numbered *)
AddressTableText(t) ==
  << "AddressTable: individual address: " \o IndividualText(t.ia) \o ", max_size=" \o ToString(t.max), "",
     "    tsap -> individual address", "    0 -> " \o IndividualText(t.ia),
     "    tsap -> group address (hex_free_style two_level_style three_level_style)" >>
  \o [i \in 1..Len(t.addrs) |-> "    " \o ToString(i) \o " -> " \o GroupText(t.addrs[i])] \o <<"">>
AssocHead == <<"AssociationTable: asap -> addresses">>
\* an address taken out of the address table directly may be listed or not
AssocRows(t, names, listed) ==
  <<"    0 (individual address) -> [" \o IndividualText(t.ia) \o "]">>
  \o [i \in 1..Len(t.assoc) |-> "    " \o AsapText(names, t.assoc[i].asap) \o " -> "
                                \o GroupList(IF listed THEN t.assoc[i].addrs ELSE AddressesOf(t, t.assoc[i].asap))]
ObjectHead == <<"GroupObjectTable: ASAP -> datapointtype">>
ObjectRows(t, names) == [i \in 1..Len(t.gobj) |-> "    " \o AsapText(names, t.gobj[i].asap) \o " -> " \o t.gobj[i].dpt]

(* ---- messages: x is the message, dpt and data the texts of its value and its data, asap that of its group object ---- *)
SvcText(s) == CASE s = "read" -> "Read" [] s = "response" -> "Response" [] s = "write" -> "Write"
DirText(d) == CASE d = "ind" -> "Ind" [] d = "con" -> "Con" [] d = "req" -> "Req"
PropText(x, asap) == "(object index " \o ToString(x.obj) \o ", property id " \o ToString(x.pid) \o ", number of elements " \o ToString(x.n)
                     \o ", start index " \o ToString(x.ix) \o " for asap " \o asap \o ")"
Ip4Text(ip) == Join([i \in 1..4 |-> ToString(ip[i])], ".")
EndpointText(ip, port) == Ip4Text(ip) \o ":" \o ToString(port)
MessageText(x, asap, dpt, data) ==
  CASE x.k = "group" -> "GroupValue" \o SvcText(x.svc) \o DirText(x.dir) \o " " \o (IF x.dir = "con" THEN "status " \o ToString(x.st) \o " " ELSE "")
                        \o "(" \o dpt \o " for asap " \o asap \o ")"
    [] x.k = "prop" -> "PropertyValue" \o SvcText(x.svc) \o DirText(x.dir) \o " " \o (IF x.svc = "read" THEN "" ELSE data \o " ")
                       \o (IF x.dir = "con" THEN "status " \o ToString(x.st) \o " " ELSE "") \o PropText(x, asap)
    [] x.k = "groupread" -> "GroupValueReadReq (for asap " \o asap \o ")"
    [] x.k = "groupwrite" -> "GroupValueWriteReq (" \o dpt \o " for asap " \o asap \o ")"
    [] x.k = "groupwriteind" -> "GroupValueWriteInd (" \o dpt \o " for asap " \o asap \o ")"
    [] x.k = "propread" -> "PropertyValueReadReq " \o PropText(x, asap)
    [] x.k = "propwrite" -> "PropertyValueWriteReq " \o data \o " " \o PropText(x, asap)
    [] x.k = "connect" -> "ConnectReq (control endpoint = " \o EndpointText(x.ip, x.port) \o " data endpoint " \o EndpointText(x.ip2, x.port2) \o ")"
    [] x.k = "connstate" -> "ConnectionstateReq (control endpoint = " \o EndpointText(x.ip, x.port) \o ")"
    [] x.k = "disconnect" -> "DisconnectReq (control endpoint = " \o EndpointText(x.ip, x.port) \o ")"
    [] x.k = "ack" -> "TunnelingAck(sequence counter=" \o ToString(x.ctr) \o ", status=" \o ToString(x.st) \o ")"
    [] x.k = "tack" -> "TunnelingAck(sequence counter=" \o ToString(x.ctr) \o ", status=" \o ToString(x.st) \o ")"
    [] x.k = "treq" -> "TunnelingReq(sequence counter=" \o ToString(x.ctr) \o ", status=<ErrorCodes."
                       \o (IF x.st = 0 THEN "E_NO_ERROR: 0" ELSE "E_SEQUENCE_NUMBER: 3") \o ">)"
    [] x.k = "conres" -> "ConnectRes(ip=" \o (IF x.ip = <<>> THEN "None" ELSE Ip4Text(x.ip)) \o ", port=" \o (IF x.ip = <<>> THEN "None" ELSE ToString(x.port))
                         \o ", individual address=" \o (IF x.st = 0 THEN Hex4(x.ia) ELSE "None") \o ", status=" \o ToString(x.st) \o ")"
    [] x.k = "csres" -> "ConnectionstateRes(status=" \o ToString(x.st) \o ")"
    [] x.k = "disres" -> "DisconnectRes(communication_channel_id=" \o ToString(x.ch) \o ", status=" \o ToString(x.st) \o ")"
    [] x.k = "searchres" -> "SearchRes(ip=" \o Ip4Text(x.ip) \o ", port=" \o ToString(x.port) \o ", individual address=" \o Hex4(x.ia) \o ")"
    [] x.k = "search" -> "SearchReq (" \o EndpointText(x.ip, x.port) \o ")"
=============================================================================
