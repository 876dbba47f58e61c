------------------------------ MODULE MCSystem ------------------------------
(* Everything together: two programs ("u", "v") whose USB clients share a daemon
   and its KNX interface, and a program ("i") whose tunnelling client is
   connected to a gateway over a network which loses and repeats what comes from
   the gateway.  The bus carries one frame after the other: its sender gets the
   confirmation, the other interface the indication.

   What the programs wrote as group messages is what all the programs get, at
   the group objects which share the address, in the order of the bus, once
   each: C01 - C05, C18, C25 - C27, C34 and C35 put together.  The parts are the
   operators which the code is bound to (Encode, Decode, UReceive, TReceive,
   KnxDaemon's lines); stated here is what they are good for together.          *)
EXTENDS KnxClient, FiniteSets
ToldOf(ms) == SelectSeq(ms, LAMBDA m : m.k = "group")
D == INSTANCE KnxDaemon

Switch(p, n) == [k |-> "groupwrite", asap |-> p, dpt |-> "DPT_Switch", val |-> <<0, 0, 0, n>>]
Temp(p, v) == [k |-> "groupwrite", asap |-> p, dpt |-> "DPT_Value_Temp", val |-> v]
Ask(p) == [k |-> "groupread", asap |-> p]
\* told apart by what they say
WorkQuick == [u |-> <<Switch(1, 1)>>, v |-> <<Temp(7, <<0, 0, 139, 255>>)>>, i |-> <<Switch(4, 0)>>]
WorkTwo == [u |-> <<Switch(1, 1), Temp(2, <<0, 0, 12, 10>>)>>, v |-> <<Temp(7, <<0, 0, 139, 255>>)>>, i |-> <<Switch(4, 0)>>]
WorkTunnel == [u |-> <<Switch(1, 1), Switch(1, 0)>>, v |-> <<>>, i |-> <<Switch(1, 1), Ask(5)>>]
WorkCut == [u |-> <<Ask(1)>>, v |-> <<Temp(7, <<0, 0, 139, 255>>)>>, i |-> <<>>]
CONSTANTS Work,    \* what each program sends: a record of sequences of messages
          Room, Pieces
VARIABLES us,      \* the USB clients
          up, buf, down,   \* octets on the way to the daemon, in it, on the way back
          ti,      \* the tunnelling client
          gc, gq,  \* gateway: its counter, what it still has to pass on
          net, ack,        \* tunnelling requests and acknowledgements under way
          air, bus,  \* frames waiting for the bus, and those it carried
          reps,    \* reports at the device
          got      \* what each program was told
vars == <<us, up, buf, down, ti, gc, gq, net, ack, air, bus, reps, got>>

Usbs == {"u", "v"}
Progs == Usbs \cup {"i"}
\* group object 1 sends to 2305, listens to 2306; 2 and 3 as they are
TableOf(p) ==
  LET t0 == NewTables(4352 + (IF p = "u" THEN 1 ELSE IF p = "v" THEN 2 ELSE 3), <<>>, 255)
  IN CASE p = "u" -> SetDpts(AssociateAll(t0, <<[asap |-> 1, addr |-> 2306], [asap |-> 1, addr |-> 2305], [asap |-> 2, addr |-> 40000]>>),
                             <<[asap |-> 1, dpt |-> "DPT_Switch"], [asap |-> 2, dpt |-> "DPT_Value_Temp"]>>)
       [] p = "v" -> SetDpts(AssociateAll(t0, <<[asap |-> 7, addr |-> 40000], [asap |-> 8, addr |-> 2305], [asap |-> 9, addr |-> 2306]>>),
                             <<[asap |-> 7, dpt |-> "DPT_Value_Temp"], [asap |-> 9, dpt |-> "DPT_Switch"]>>)
       [] OTHER -> SetDpts(AssociateAll(t0, <<[asap |-> 1, addr |-> 2305], [asap |-> 4, addr |-> 2306], [asap |-> 5, addr |-> 2306], [asap |-> 5, addr |-> 40000]>>),
                           <<[asap |-> 1, dpt |-> "DPT_Switch"], [asap |-> 4, dpt |-> "DPT_Switch"], [asap |-> 5, dpt |-> "DPT_Value_Temp"]>>)
Tables == [p \in Progs |-> TableOf(p)]

\* ---- the interfaces: from what a program sent to a frame, and back -----------
OfReport(r) == Drop(SubSeq(r, 12, 11 + Word(r[6], r[7])), 2)
OfRequest(f) == Drop(Drop(f, 10), 2)
On(link, ia) == [link EXCEPT ![3] = ia \div 256, ![4] = ia % 256]
Deliver(from, link, to) == Cemi(IF from = to THEN LDataCon ELSE LDataInd, link)

Init == /\ us = [p \in Usbs |-> UClient(Tables[p], Work[p])]
        /\ up = [p \in Usbs |-> <<>>] /\ buf = [p \in Usbs |-> <<>>] /\ down = [p \in Usbs |-> <<>>]
        /\ ti = [TClient(Tables["i"], Sess(0, 0, 7), Work["i"], Endpoint(<<10, 0, 0, 7>>, 5544), Endpoint(<<10, 1, 2, 3>>, 3671)) EXCEPT !.on = TRUE]
        /\ gc = 0 /\ gq = <<>> /\ net = <<>> /\ ack = <<>>
        /\ air = <<>> /\ bus = <<>> /\ reps = <<>>
        /\ got = [p \in Progs |-> <<>>]
Rest1 == <<ti, gc, gq, net, ack>>

HexOf(o) == [i \in 1..(2 * Len(o)) |-> LET b == o[(i + 1) \div 2]
                                           d == IF i % 2 = 1 THEN b \div 16 ELSE b % 16
                                       IN IF d < 10 THEN 48 + d ELSE 55 + d]
\* a program's client writes its next message
Write(p) == /\ us[p].k <= Len(us[p].msgs)
            /\ LET o == Append(HexOf(Encode(Usb, us[p].t, Sess(0, 0, 0), us[p].msgs[us[p].k]).o), 10)
                   r == UWrite(us[p], o)
               IN r.ok /\ us' = [us EXCEPT ![p] = r.c] /\ up' = [up EXCEPT ![p] = @ \o o]
            /\ UNCHANGED <<buf, down, air, bus, reps, got>> /\ UNCHANGED Rest1
Piece(q) == {n \in Pieces : n < Len(q)} \cup (IF q = <<>> THEN {} ELSE {Len(q)})
\* the daemon reads some of what a client wrote
DaemonReads(p) == \E n \in Piece(up[p]) :
  LET r == D!Receive(buf[p], Take(up[p], n))
  IN /\ up' = [up EXCEPT ![p] = Drop(@, n)] /\ buf' = [buf EXCEPT ![p] = r.buf]
     /\ air' = air \o [j \in 1..Len(r.packets) |-> [from |-> "usb", link |-> On(OfReport(r.packets[j]), 4097)]]
     /\ UNCHANGED <<us, down, bus, reps, got>> /\ UNCHANGED Rest1
\* the bus carries a frame
Carry == /\ air # <<>>
         /\ LET x == Head(air)
            IN /\ reps' = Append(reps, WrapUsb(Deliver(x.from, x.link, "usb")))
               /\ gq' = Append(gq, Deliver(x.from, x.link, "ip"))
               /\ bus' = Append(bus, x)
         /\ air' = Tail(air)
         /\ UNCHANGED <<us, up, buf, down, ti, gc, net, ack, got>>
\* the daemon reads a report and passes it to everybody
DaemonReports == /\ reps # <<>>
                 /\ down' = [p \in Usbs |-> down[p] \o D!ReportLine(Head(reps) \o [i \in 1..3 |-> 0])]
                 /\ reps' = Tail(reps)
                 /\ UNCHANGED <<us, up, buf, air, bus, got>> /\ UNCHANGED Rest1
UsbReads(p) == \E n \in Piece(down[p]) :
  LET r == UReceive(us[p], Take(down[p], n))
  IN /\ down' = [down EXCEPT ![p] = Drop(@, n)] /\ us' = [us EXCEPT ![p] = r.c]
     /\ got' = [got EXCEPT ![p] = @ \o r.msgs]
     /\ UNCHANGED <<up, buf, air, bus, reps>> /\ UNCHANGED Rest1
\* the gateway sends, and sends again until it is acknowledged
GatewaySends == /\ gq # <<>> /\ Len(net) < Room
                /\ net' = Append(net, WrapIp(Sess(0, gc, 7), Head(gq)))
                /\ UNCHANGED <<us, up, buf, down, ti, gc, gq, ack, air, bus, reps, got>>
Lose == \/ net # <<>> /\ net' = Tail(net) /\ UNCHANGED ack
        \/ ack # <<>> /\ ack' = Tail(ack) /\ UNCHANGED net
LoseAny == Lose /\ UNCHANGED <<us, up, buf, down, ti, gc, gq, air, bus, reps, got>>
TunnelReads == /\ net # <<>> /\ Len(ack) < Room
               /\ LET r == TReceive(ti, Head(net))
                  IN /\ ti' = [r.c EXCEPT !.owed = <<>>]
                     /\ ack' = ack \o r.c.owed
                     /\ got' = [got EXCEPT !["i"] = @ \o (IF ToldOf(r.msgs) = <<>> THEN <<>> ELSE <<ToldOf(r.msgs)>>)]
               /\ net' = Tail(net)
               /\ UNCHANGED <<us, up, buf, down, gc, gq, air, bus, reps>>
GatewayAcked == /\ ack # <<>>
                /\ IF gq # <<>> /\ Head(ack) = <<6, 16, 4, 33, 0, 10, 4, 7, gc, 0>>
                   THEN gc' = (gc + 1) % 256 /\ gq' = Tail(gq)
                   ELSE UNCHANGED <<gc, gq>>
                /\ ack' = Tail(ack)
                /\ UNCHANGED <<us, up, buf, down, ti, net, air, bus, reps, got>>
\* the tunnelling client sends its next message, which the gateway acknowledges at once
TunnelSends == /\ NextMessage(ti) # <<>>
               /\ LET f == NextMessage(ti)
                      r == TReceive(SendNext(ti), <<6, 16, 4, 33, 0, 10, 4, f[8], f[9], 0>>)
                  IN /\ ti' = r.c
                     /\ air' = Append(air, [from |-> "ip", link |-> On(OfRequest(f), 4098)])
               /\ UNCHANGED <<us, up, buf, down, gc, gq, net, ack, bus, reps, got>>
Next == \/ \E p \in Usbs : Write(p) \/ DaemonReads(p) \/ UsbReads(p)
        \/ Carry \/ DaemonReports \/ GatewaySends \/ LoseAny \/ TunnelReads \/ GatewayAcked \/ TunnelSends
Spec == Init /\ [][Next]_vars
\* without losses everything comes to an end
Fair == Spec /\ WF_vars(\E p \in Usbs : Write(p) \/ DaemonReads(p) \/ UsbReads(p)) /\ WF_vars(Carry) /\ WF_vars(DaemonReports)
             /\ WF_vars(TunnelSends) /\ SF_vars(GatewaySends) /\ SF_vars(TunnelReads) /\ SF_vars(GatewayAcked)

\* ---- what it is good for ------------------------------------------------------
\* the messages programs sent through an interface, told apart by what they say
Says(x) == [dst |-> Word(x.link[5], x.link[6]), data |-> Drop(x.link, 8)]
Told(m, p) == [dst |-> AddressesOf(Tables[p], m.asap)[1],
               data |-> IF m.k = "groupread" THEN <<0>>
                        ELSE IF DptType[m.dpt].sub THEN <<128 + m.val[4]>> ELSE <<128>> \o LastN(m.val, DptType[m.dpt].size)]
Sender(x) == CHOOSE p \in Progs : (p = "i") = (x.from = "ip") /\ \E m \in Range(Work[p]) : Told(m, p) = Says(x)
MessageOf(x, p) == CHOOSE m \in Range(Work[p]) : Told(m, p) = Says(x)
\* what program q is to be told of message m of program p
Due(m, p, q) ==
  LET dst == AddressesOf(Tables[p], m.asap)[1]
      objs == {e \in Range(Tables[q].gobj) : dst \in Range(AddressesOf(Tables[q], e.asap))}
      dir == IF (p = "i") = (q = "i") THEN "con" ELSE "ind"
  IN {[svc |-> IF m.k = "groupread" THEN "read" ELSE "write", dir |-> dir, asap |-> e.asap, dpt |-> e.dpt,
       val |-> IF m.k = "groupread" \/ e.dpt # m.dpt THEN <<>> ELSE LastN(m.val, DptType[m.dpt].size)] : e \in objs}
Got(ms, m) == {[svc |-> ms[j].svc, dir |-> ms[j].dir, asap |-> ms[j].asap, dpt |-> ms[j].dpt,
                val |-> IF m.k = "groupread" \/ ms[j].dpt # m.dpt THEN <<>> ELSE ms[j].val] : j \in 1..Len(ms)}
\* the frames of the bus of which q is to be told something
ForMe(q) == SelectSeq(bus, LAMBDA x : Due(MessageOf(x, Sender(x)), Sender(x), q) # {})
Delivered == \A q \in Progs :
  /\ Len(got[q]) <= Len(ForMe(q))
  /\ \A j \in 1..Len(got[q]) : LET x == ForMe(q)[j]
                                   m == MessageOf(x, Sender(x))
                               IN Got(got[q][j], m) = Due(m, Sender(x), q) /\ Len(got[q][j]) = Cardinality(Due(m, Sender(x), q))
\* each program's messages come to the bus in their order, once each
Sent(p) == SelectSeq(bus, LAMBDA x : Sender(x) = p)
Ordered == \A p \in Progs : /\ Len(Sent(p)) <= Len(Work[p])
                            /\ \A j \in 1..Len(Sent(p)) : Says(Sent(p)[j]) = Told(Work[p][j], p)
\* nothing is left over: everybody was told everything
Quiet == /\ \A p \in Usbs : us[p].k > Len(us[p].msgs) /\ up[p] = <<>> /\ down[p] = <<>>
         /\ Finished(ti) /\ air = <<>> /\ reps = <<>> /\ gq = <<>>
Complete == Quiet => \A q \in Progs : /\ Len(got[q]) = Len(ForMe(q))
                                      /\ \A p \in Progs : Len(Sent(p)) = Len(Work[p])
                                      /\ q # "i" => buf[q] = <<>> /\ us[q].buf = <<>>
Ends == <>[](Quiet)
=============================================================================
