----------------------------- MODULE KnxDaemon -----------------------------
(* What the USB daemon owes its clients and its device, seen from outside.

   A connection: [on, any, buf, owed, stalled]
     buf    octets received since the last line end
     owed   the texts the client may find when it reads next (more than one
            where the order of simultaneous events is open)
     any    it came as the 65th or later: only promised not to disturb others
     stalled  it does not read any more: what it gets, and whether the daemon
            goes on with it once its buffers are full, is open; only promised
            not to disturb others
   Several things may happen at once (a step): operations on different
   descriptors are served in an order of the daemon's choosing, those on one
   descriptor in their order.                                                *)
EXTENDS KnxOctets, FiniteSets

NL == 10
CR == 13
Ends == {NL, CR} \* of both in a row the second ends an empty line
PacketLen == 56
MaxClients == 64
HexVal(b) == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] b \in 97..102 -> b - 87 [] OTHER -> -1
HexLow(n) == IF n < 10 THEN 48 + n ELSE 87 + n
\* a report as a line
ReportLine(o) == [i \in 1..(2 * Len(o) + 1) |-> IF i = 2 * Len(o) + 1 THEN NL
                    ELSE LET b == o[(i + 1) \div 2] IN HexLow(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
ValidLine(l) == Len(l) > 0 /\ Len(l) <= 2 * PacketLen /\ Len(l) % 2 = 0 /\ \A i \in 1..Len(l) : HexVal(l[i]) >= 0
Packet(l) == [i \in 1..PacketLen |-> IF 2 * i <= Len(l) THEN HexVal(l[2 * i - 1]) * 16 + HexVal(l[2 * i]) ELSE 0]
\* [lines, rest] of a text from position i on
RECURSIVE Split(_, _, _)
Split(o, from, done) ==
  IF \E j \in from..Len(o) : o[j] \in Ends
  THEN LET j == CHOOSE j \in from..Len(o) : o[j] \in Ends /\ \A k \in from..(j - 1) : o[k] \notin Ends
       IN Split(o, j + 1, Append(done, SubSeq(o, from, j - 1)))
  ELSE [lines |-> done, rest |-> SubSeq(o, from, Len(o))]
RECURSIVE PacketsOf(_)
PacketsOf(ls) == IF ls = <<>> THEN <<>> ELSE (IF ValidLine(Head(ls)) THEN <<Packet(Head(ls))>> ELSE <<>>) \o PacketsOf(Tail(ls))
\* octets arrive on a connection: [buf, packets]
Receive(buf, o) == LET r == Split(buf \o o, 1, <<>>) IN [buf |-> r.rest, packets |-> PacketsOf(r.lines)]

NewConn(any) == [on |-> TRUE, any |-> any, buf |-> <<>>, owed |-> {<<>>}, stalled |-> FALSE]
Gone == [on |-> FALSE, any |-> TRUE, buf |-> <<>>, owed |-> {<<>>}, stalled |-> FALSE]
=============================================================================
