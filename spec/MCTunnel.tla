------------------------------ MODULE MCTunnel ------------------------------
(* The tunnelling connection as a whole: a gateway and a client, each sending
   telegrams to the other over a network which loses, repeats and (with Reorder)
   reorders datagrams, each repeating what is not acknowledged.  The client's
   rules are those of KnxCodec (Classify, AckSent, AckReceived), which the code is
   bound to; the gateway is any device following the protocol.  Counters start
   near their wrap.  Bug selects a broken rule, to see that the properties can
   fail (they must hold for Bug = "none" only).                                 *)
EXTENDS KnxCodec, TLC, Json

CONSTANTS ToClient, ToGateway, Start, Room, Reorder, HeadLoss, Bug, Emit
VARIABLES s,      \* the client's session
          got,    \* telegrams delivered at the client
          k,      \* client: number of the telegram it is sending
          gn,     \* gateway: number of the telegram it is sending
          gc,     \* gateway: its counter
          ge,     \* gateway: the counter it expects
          gotG,   \* telegrams delivered at the gateway
          down, up, \* the network: to the client, to the gateway
          act       \* what the client was asked to do in the last step (kept only to be printed)
vars == <<s, got, k, gn, gc, ge, gotG, down, up>>
A(x) == act' = IF Emit THEN x ELSE <<>>

Req(ctr, n) == [k |-> "req", ctr |-> ctr, n |-> n]
Ack(ctr, st) == [k |-> "ack", ctr |-> ctr, n |-> st]
Put(q, d) == IF Len(q) < Room THEN Append(q, d) ELSE Append(Tail(q), d) \* a full network loses the oldest
Removed(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* HeadLoss: only the oldest is lost (with fairness, so that not everything is lost for ever)
Losable(q) == IF HeadLoss THEN (IF q = <<>> THEN {} ELSE {1}) ELSE 1..Len(q)
Next1(q) == IF Reorder THEN 1..Len(q) ELSE IF q = <<>> THEN {} ELSE {1}

Init == /\ s = Sess(Start, Start, 1) /\ got = <<>> /\ k = 1
        /\ gn = 1 /\ gc = Start /\ ge = Start /\ gotG = <<>> /\ down = <<>> /\ up = <<>> /\ act = <<>>

GwSend == /\ gn <= ToClient
          /\ down' = Put(down, Req(gc, gn))
          /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, up>>
CliSend == /\ k <= ToGateway
           /\ up' = Put(up, Req(s.lc, k))
           /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, down>>
           /\ A([op |-> "send", ctr |-> s.lc, n |-> k])
Lose == \/ \E i \in Losable(down) : down' = Removed(down, i) /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, up>>
        \/ \E i \in Losable(up) : up' = Removed(up, i) /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, down>>
Repeat == \/ \E i \in 1..Len(down) : Len(down) < Room /\ down' = SubSeq(down, 1, i) \o SubSeq(down, i, Len(down)) /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, up>>
          \/ \E i \in 1..Len(up) : Len(up) < Room /\ up' = SubSeq(up, 1, i) \o SubSeq(up, i, Len(up)) /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, down>>
\* ---- the client receives ----
Acked(ctr) == CASE Bug = "ack carries the expected counter" -> s.rc
                [] OTHER -> ctr
CliReq == \E i \in Next1(down) : down[i].k = "req" /\
  LET d == down[i]
      c == IF Bug = "no wrap" /\ s.rc = 0 /\ d.ctr # 0 THEN "sequence" ELSE Classify(s, d.ctr)
  IN /\ down' = Removed(down, i)
     /\ got' = IF c = "expected" \/ (Bug = "delivers repetitions" /\ c = "repeated") THEN Append(got, d.n) ELSE got
     /\ s' = IF c = "sequence" THEN s ELSE AckSent(s, d.ctr)
     /\ up' = IF c = "sequence" \/ (Bug = "repetitions are not acknowledged" /\ c = "repeated") THEN up ELSE Put(up, Ack(Acked(d.ctr), 0))
     /\ UNCHANGED <<k, gn, gc, ge, gotG>>
     /\ A([op |-> "req", ctr |-> d.ctr, n |-> d.n])
CliAck == \E i \in Next1(down) : down[i].k = "ack" /\
  LET d == down[i]
      s2 == IF Bug = "any ack" THEN [s EXCEPT !.lc = Inc(@)] ELSE AckReceived(s, d.ctr, d.n)
  IN /\ down' = Removed(down, i)
     /\ s' = s2
     /\ k' = IF s2.lc # s.lc /\ k <= ToGateway THEN k + 1 ELSE k
     /\ UNCHANGED <<got, gn, gc, ge, gotG, up>>
     /\ A([op |-> "ack", ctr |-> d.ctr, n |-> d.n])
\* ---- the gateway receives ----
GwAck == \E i \in Next1(up) : up[i].k = "ack" /\
  LET d == up[i] IN
  /\ up' = Removed(up, i)
  /\ IF d.ctr = gc /\ gn <= ToClient THEN gn' = gn + 1 /\ gc' = Inc(gc) ELSE UNCHANGED <<gn, gc>>
  /\ UNCHANGED <<s, got, k, ge, gotG, down>>
GwReq == \E i \in Next1(up) : up[i].k = "req" /\
  LET d == up[i] IN
  /\ up' = Removed(up, i)
  /\ IF d.ctr = ge THEN gotG' = Append(gotG, d.n) /\ ge' = Inc(ge) /\ down' = Put(down, Ack(d.ctr, 0))
     ELSE IF Inc(d.ctr) = ge THEN down' = Put(down, Ack(d.ctr, 0)) /\ UNCHANGED <<gotG, ge>>
     ELSE UNCHANGED <<gotG, ge, down>>
  /\ UNCHANGED <<s, got, k, gn, gc>>
\* ---- the whole ----
Next == /\ \/ (GwSend \/ Lose \/ Repeat \/ GwAck \/ GwReq) /\ A([op |-> "net", ctr |-> 0, n |-> 0])
           \/ CliSend \/ CliReq \/ CliAck
        /\ (Emit => PrintT("@@" \o ToJson([p |-> vars, c |-> act', q |-> vars'])))
Fair == /\ WF_vars(GwSend) /\ WF_vars(CliSend)
        /\ SF_vars(CliReq) /\ SF_vars(CliAck) /\ SF_vars(GwAck) /\ SF_vars(GwReq)
View == vars
Spec == Init /\ [][Next]_<<vars, act>>
FairSpec == Spec /\ Fair

InOrder(g, n) == Len(g) <= n /\ \A i \in 1..Len(g) : g[i] = i
\* C18, C26: delivered exactly once and in order
ExactlyOnce == InOrder(got, ToClient)
\* C20: what the gateway accepts is delivered once and in order
OtherWay == InOrder(gotG, ToGateway)
\* nobody believes something delivered which is not
Believes == gn - 1 <= Len(got) /\ k - 1 <= Len(gotG)
Counters == s.rc = (Start + Len(got)) % 256 /\ ge = (Start + Len(gotG)) % 256 /\ s.lc = (Start + k - 1) % 256 /\ gc = (Start + gn - 1) % 256
\* C26: every telegram is eventually accepted (the network keeps delivering something)
AllArrive == <>(gn = ToClient + 1 /\ k = ToGateway + 1)
=============================================================================
