---------------------------- MODULE MCDiscovery ----------------------------
(* The two discovery services among devices which answer, other traffic and
   errors of the network, in any order (C28).                                 *)
EXTENDS KnxClient, TLC, Json

CONSTANTS Datagrams, Emit
VARIABLES kind, phase, prev, sent, got, last
vars == <<kind, phase, prev, sent, got, last>>

Me == Endpoint(<<10, 0, 0, 7>>, 5544)
Multicast == Endpoint(<<224, 0, 23, 12>>, 3671)
Search == Encode(Ip, <<>>, Sess(0, 0, 0), [k |-> "search", ip |-> Me.ip, port |-> Me.port]).o
Answer(ip, port, ia, more) == LET b == Hpai(ip, port) \o <<54, 1, 2, 0, Hi(ia), Lo(ia)>> \o Zeros(more) IN <<6, 16, 2, 2, 0, 6 + Len(b)>> \o b
Gram(d) ==
  CASE d = "first" -> Answer(<<10, 1, 2, 3>>, 3671, 4361, 48)
    [] d = "second" -> Answer(<<192, 168, 255, 0>>, 65535, 65535, 52)
    [] d = "zero" -> Answer(<<0, 0, 0, 0>>, 0, 0, 48)
    [] d = "short" -> Answer(<<10, 1, 2, 3>>, 3671, 4361, 0)
    [] d = "request" -> Search
    [] d = "cut" -> Take(Answer(<<10, 1, 2, 3>>, 3671, 4361, 0), 17)
    [] d = "connect" -> <<6, 16, 2, 6, 0, 20, 5, 0>> \o Hpai(<<10, 1, 2, 3>>, 3671) \o <<4, 4, 17, 9>>
    [] d = "state" -> <<6, 16, 2, 8, 0, 8, 5, 0>>
    [] d = "words" -> <<104, 101, 108, 108, 111, 33, 33, 33>>
    [] d = "nothing" -> <<>>
Answers == {"first", "second", "zero", "short"}
Heard(d) == SelectSeq(Decode(Ip, NewTables(0, <<>>, 255), Sess(0, 0, 0), Gram(d)).msgs, LAMBDA m : m.k = "searchres")

Init == /\ kind \in {"request", "listen"} /\ phase = "up" /\ prev = "start" /\ got = <<>>
        /\ sent = IF kind = "request" THEN <<[to |-> Multicast, o |-> Search]>> ELSE <<>>
        /\ last = [op |-> "start"]
Receive(d) == /\ phase = "up" /\ prev' = d
              /\ got' = (IF kind = "listen" THEN Heard(d) ELSE <<>>)
              /\ last' = [op |-> "dgram", f |-> Gram(d)]
              /\ UNCHANGED phase
Trouble == /\ phase = "up" /\ prev' = "error" /\ got' = <<>> /\ last' = [op |-> "error"] /\ UNCHANGED phase
Lost == /\ phase = "up" /\ phase' = "lost" /\ prev' = "lost" /\ got' = <<>> /\ last' = [op |-> "lost"]
Pass == /\ prev' = "wait" /\ got' = <<>> /\ last' = [op |-> "wait"] /\ UNCHANGED phase
View == [kind |-> kind, phase |-> phase, prev |-> prev]
Next == /\ (\E d \in Datagrams : Receive(d)) \/ Trouble \/ Lost \/ Pass
        /\ UNCHANGED <<kind, sent>>
        /\ (Emit => PrintT("@@" \o ToJson([p |-> View, c |-> last', q |-> View'])))
Spec == Init /\ [][Next]_vars

\* C28
Asks == /\ kind = "request" => Len(sent) = 1 /\ sent[1].to = Multicast
                               /\ Word(sent[1].o[3], sent[1].o[4]) = 513 /\ SubSeq(sent[1].o, 9, 12) = Me.ip /\ Word(sent[1].o[13], sent[1].o[14]) = Me.port
        /\ kind = "listen" => sent = <<>>
Understands == (kind = "listen" /\ last.op = "dgram") => (Len(got) = (IF prev \in Answers THEN 1 ELSE 0))
Exactly == (kind = "listen" /\ prev \in {"first", "short"}) => got = <<[k |-> "searchres", ip |-> <<10, 1, 2, 3>>, port |-> 3671, ia |-> 4361]>>
=============================================================================
