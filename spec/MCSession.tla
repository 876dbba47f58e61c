----------------------------- MODULE MCSession -----------------------------
(* One tunnelling session under every call, with counters near the wrap and
   every relation between a counter received and the one expected.           *)
EXTENDS KnxStack, TLC, Json

CONSTANTS Rcs, Lcs, Chs, Offsets, Emit
VARIABLES s, last
R256 == 0..255
vars == <<s, last>>
View == s

T == SetDpt(Associate(NewTables(4353, <<>>, 255), 1, <<2305>>).t, 1, "DPT_Switch").t
Near(n) == {(n + d) % 256 : d \in Offsets}
Endpoint == <<10, 0, 0, 7>>
Data(code) == Cemi(code, <<188, 224, 17, 1, 9, 1, 1, 0, 129>>)
TReq(ch, ctr) == <<6, 16, 4, 32, 0, 21, 4, ch, ctr, 0>> \o Data(LDataInd)
TAck(ch, ctr, st) == <<6, 16, 4, 33, 0, 10, 4, ch, ctr, st>>
ConOk(ch) == <<6, 16, 2, 6, 0, 20, ch, 0>> \o Hpai(Endpoint, 3671) \o <<4, 4, 17, 9>>
ConNo(ch, st) == <<6, 16, 2, 6, 0, 8, ch, st>>
CsRes(ch, st) == <<6, 16, 2, 8, 0, 8, ch, st>>
DisRes(ch, st) == <<6, 16, 2, 10, 0, 8, ch, st>>
Decs(fs) == [op : {"dec"}, s : {1}, f : fs]
Encs(xs) == [op : {"enc"}, s : {1}, x : xs]
Calls == Decs({TReq(s.ch, c) : c \in Near(s.rc)}) \cup Decs({TReq((s.ch + 1) % 256, s.rc)})
         \cup Decs({TAck(s.ch, c, st) : c \in Near(s.lc), st \in {0, 1}})
         \cup Decs({ConOk(ch) : ch \in Chs} \cup {ConNo(ch, st) : ch \in Chs, st \in {36, 34}})
         \cup Decs({CsRes(s.ch, 0), CsRes(s.ch, 33), DisRes(s.ch, 0), DisRes(s.ch, 33)})
         \cup Encs({[k |-> "ack", ctr |-> c, st |-> 0] : c \in Near(s.rc)} \cup {[k |-> "ack", ctr |-> s.rc, st |-> 3]})
         \cup Encs({[k |-> "groupread", asap |-> 1], [k |-> "connstate", ip |-> Endpoint, port |-> 5],
                    [k |-> "disconnect", ip |-> Endpoint, port |-> 5]})
World1 == World(<<T>>, <<[k |-> 1, m |-> Ip, s |-> s]>>)

Init == /\ s \in {Sess(rc, lc, ch) : rc \in Rcs, lc \in Lcs, ch \in Chs \cup {0}}
        /\ last = [c |-> [op |-> "none"], msgs |-> <<>>, o |-> <<>>]
Next == /\ s.rc \in Rcs /\ s.lc \in Lcs
        /\ \E c \in Calls :
             LET r == Step(World1, c) IN
             /\ s' = r.w.ss[1].s
             /\ last' = [c |-> c, msgs |-> r.msgs, o |-> r.o]
             /\ (Emit => PrintT("@@" \o ToJson([p |-> s, c |-> c, q |-> r.w.ss[1].s])))
Spec == Init /\ [][Next]_vars

IsDec == last'.c.op = "dec"
Svc == Word(last'.c.f[3], last'.c.f[4])
IsEnc(k) == last'.c.op = "enc" /\ last'.c.x.k = k
\* C19
Expected == [][s'.rc # s.rc <=> (IsEnc("ack") /\ last'.c.x.ctr = s.rc)]_vars
AdvancesByOne == [][s'.rc \in {s.rc, (s.rc + 1) % 256} /\ s'.lc \in {s.lc, (s.lc + 1) % 256}]_vars
AckNames == [][(IsEnc("ack") /\ last'.c.x.ctr \in {s.rc, (s.rc + 255) % 256}) =>
               (last'.o[8] = s.ch /\ last'.o[9] = last'.c.x.ctr /\ last'.o[10] = last'.c.x.st)]_vars
\* C20
SendCounter == [][s'.lc # s.lc <=> (IsDec /\ Svc = 1057 /\ last'.c.f[9] = s.lc /\ last'.c.f[10] = 0)]_vars
RequestCounter == [][IsEnc("groupread") => (last'.o[8] = s.ch /\ last'.o[9] = s.lc)]_vars
\* C21
Channel == [][s'.ch # s.ch => (IsDec /\ ((Svc = 518 /\ last'.c.f[8] = 0 /\ s'.ch = last'.c.f[7]) \/ (Svc = 522 /\ last'.c.f[8] = 0 /\ s'.ch = 0)))]_vars
Granted == [][(IsDec /\ Svc = 518 /\ last'.c.f[8] = 0) => s'.ch = last'.c.f[7]]_vars
CoreChannel == [][(IsEnc("connstate") \/ IsEnc("disconnect")) => last'.o[7] = s.ch]_vars
\* C18
Delivery == [][(IsDec /\ Svc = 1056) =>
               (LET n == Cardinality({i \in 1..Len(last'.msgs) : last'.msgs[i].k = "group"}) IN
                /\ n = (IF last'.c.f[9] = s.rc THEN 1 ELSE 0)
                /\ last'.msgs[1].st = (IF last'.c.f[9] = s.rc \/ Inc(last'.c.f[9]) = s.rc THEN 0 ELSE 3))]_vars
=============================================================================
