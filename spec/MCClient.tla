------------------------------ MODULE MCClient ------------------------------
(* The tunnelling client against a gateway which may send anything at any time. *)
EXTENDS KnxClient, TLC, Json

CONSTANTS Rcs, Chs, NMsgs, Emit
VARIABLES c, last
vars == <<c, last>>
View == [s |-> c.s, k |-> c.k, on |-> c.on]

T == SetDpt(Associate(NewTables(4353, <<>>, 255), 1, <<2305>>).t, 1, "DPT_Switch").t
Msgs == [i \in 1..NMsgs |-> [k |-> "groupwrite", asap |-> 1, dpt |-> "DPT_Switch", val |-> <<0, 0, 0, i % 2>>]]
Me == Endpoint(<<10, 0, 0, 7>>, 5544)
Gw == Endpoint(<<10, 1, 2, 3>>, 3671)
Data == Cemi(LDataInd, <<188, 224, 17, 1, 9, 1, 1, 0, 129>>)
TReq(ch, ctr) == <<6, 16, 4, 32, 0, 21, 4, ch, ctr, 0>> \o Data
TAck(ch, ctr, st) == <<6, 16, 4, 33, 0, 10, 4, ch, ctr, st>>
ConOk(ch) == <<6, 16, 2, 6, 0, 20, ch, 0>> \o Hpai(Gw.ip, Gw.port) \o <<4, 4, 17, 9>>
ConNo(ch) == <<6, 16, 2, 6, 0, 8, ch, 36>>
Broken(ch) == Take(ConOk(ch), 15)
CsRes(ch) == <<6, 16, 2, 8, 0, 8, ch, 0>>
DisRes(ch, st) == <<6, 16, 2, 10, 0, 8, ch, st>>
Foreign(ch) == <<6, 16, 2, 5, 0, 8, ch, 0>>
Grams == {TReq(c.s.ch, (c.s.rc + d) % 256) : d \in {0, 255, 254, 1}}
         \cup {TAck(c.s.ch, (c.s.lc + d) % 256, 0) : d \in {0, 255, 1}} \cup {TAck(c.s.ch, c.s.lc, 1)}
         \cup UNION {{ConOk(ch), ConNo(ch), Broken(ch), Foreign(ch)} : ch \in Chs}
         \cup {CsRes(c.s.ch), DisRes(c.s.ch, 0), DisRes(c.s.ch, 33)}
Calls == {[op |-> "dgram", f |-> f] : f \in Grams} \cup {[op |-> "tick"]}
Paid(cc) == [cc EXCEPT !.owed = <<>>]

Started == TStart(TClient(T, Sess(0, 0, 0), Msgs, Me, Gw))
Init == c = Paid(Started) /\ last = [op |-> "start", f |-> <<>>, msgs |-> <<>>, outs |-> Started.owed]
Do(call) ==
  IF call.op = "tick"
  THEN /\ NextMessage(c) # <<>>
       /\ c' = SendNext(c)
       /\ last' = [op |-> "tick", f |-> <<>>, msgs |-> <<>>, outs |-> <<NextMessage(c)>>]
  ELSE LET r == TReceive(c, call.f) IN
       /\ c' = Paid(r.c)
       /\ last' = [op |-> "dgram", f |-> call.f, msgs |-> r.msgs, outs |-> r.c.owed]
Next == /\ c.s.rc \in Rcs /\ c.s.lc \in {0, 1, 2}
        /\ \E call \in Calls : Do(call)
             /\ (Emit => PrintT("@@" \o ToJson([p |-> View, c |-> call, q |-> View'])))
Spec == Init /\ [][Next]_vars

Svc(o) == Word(o[3], o[4])
Grants == last'.op = "dgram" /\ \E i \in 1..Len(last'.msgs) : last'.msgs[i].k = "conres" /\ last'.msgs[i].st = 0
\* C24
Connects == [][(c'.on # c.on) => Grants]_vars
OnGrant == [][Grants => (c'.on /\ c'.s.rc = 0 /\ c'.s.lc = 0 /\ Len(last'.outs) = 1 /\ Svc(last'.outs[1]) = 519 /\ last'.outs[1][7] = last'.f[7])]_vars
\* C24, C25: nothing before a connection is granted but acknowledgements of what the session accepts
Quiet == [][(~c'.on) => \A i \in 1..Len(last'.outs) : Svc(last'.outs[i]) = 1057]_vars
\* C25
InOrder == [][(c'.k # c.k) => (c.on /\ c'.k = c.k + 1 /\ Len(last'.outs) = 1 /\ last'.outs[1][8] = c.s.ch /\ last'.outs[1][9] = c.s.lc)]_vars
OnlyTicks == [][(\E i \in 1..Len(last'.outs) : Svc(last'.outs[i]) = 1056) => c'.k = c.k + 1]_vars
\* C26
Acks == [][(last'.op = "dgram" /\ Svc(last'.f) = 1056) =>
             LET ctr == last'.f[9] fit == ctr = c.s.rc \/ Inc(ctr) = c.s.rc IN
             last'.outs = (IF fit THEN <<TAck(c.s.ch, ctr, 0)>> ELSE <<>>)]_vars
NoOtherAcks == [][(\E i \in 1..Len(last'.outs) : Svc(last'.outs[i]) = 1057) => (last'.op = "dgram" /\ Svc(last'.f) = 1056)]_vars
=============================================================================
