---------------------------- MODULE ClientTrace ----------------------------
(* Recorded histories of the real clients, run on an event loop with virtual
   time, judged event by event.  Kinds of history: "tunnel", "usb", "request"
   and "listen" (the two discovery services).                                 *)
EXTENDS KnxClient, KnxJudge, Json, IOUtils, TLC

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, c, bad
vars == <<h, i, c, bad>>

Table(e) == SetDpts(AssociateAll(NewTables(e.ia, e.addrs, e.max), e.assoc), e.gobj)
Born(e) == IF e.kind = "tunnel" THEN TClient(Table(e), Sess(e.s.rc, e.s.lc, e.s.ch), e.msgs, e.me, e.gw)
           ELSE IF e.kind = "usb" THEN UClient(Table(e), e.msgs)
           ELSE [me |-> e.me, sent |-> FALSE]
R(cc, v) == [c |-> cc, v |-> v]

(* ---- tunnelling client ---------------------------------------------------- *)
Service(o) == IF Len(o) >= 4 THEN Word(o[3], o[4]) ELSE -1
KindOf(o) == CASE Service(o) = 1057 -> Vi("C26", "acknowledgement") \cup Vi("C19", "acknowledgement of the client")
               [] Service(o) = 1056 -> Vi("C25", "tunnelling request")
               [] OTHER -> Vi("C24", "core request")
RECURSIVE Outs(_, _, _)
Outs(cc, outs, v) ==
  IF outs = <<>> THEN R(cc, v)
  ELSE LET o == Head(outs).o
           there == Head(outs).to = cc.gw
           rest == Tail(outs)
       IN IF cc.owed # <<>> /\ there /\ o = Head(cc.owed) THEN Outs(PayOwed(cc), rest, v)
          ELSE IF NextMessage(cc) # <<>> /\ there /\ o = NextMessage(cc) THEN Outs(SendNext(cc), rest, v)
          ELSE IF ~there THEN R([cc EXCEPT !.owed = <<>>], v \cup KindOf(o) \cup Vi("C24", "not to the gateway"))
          ELSE R([cc EXCEPT !.owed = <<>>],
                 v \cup KindOf(o) \cup (IF cc.owed # <<>> THEN KindOf(Head(cc.owed)) ELSE {})
                   \cup If(~cc.on /\ Service(o) # 517, Vi("C25", "sent before being connected") \cup Vi("C24", "sent before being connected"))
                   \cup If(cc.on /\ Service(o) = 1056 /\ Len(o) >= 9 /\ (o[8] # cc.s.ch), Vi("C21", "channel of the client's request"))
                   \cup If(cc.on /\ Service(o) = 1056 /\ Len(o) >= 9 /\ (o[9] # cc.s.lc), Vi("C20", "counter of the client's request")))
Settle(r) == IF r.c.owed = <<>> THEN r
             ELSE R([r.c EXCEPT !.owed = <<>>], r.v \cup UNION {KindOf(r.c.owed[j]) : j \in 1..Len(r.c.owed)} \cup Vi("C26", "not sent"))
View(r, e, f) ==
  LET ss == r.c.s
      tags == CASE Service(f) = 518 -> Vi("C24", "session after a connect response")
                [] Service(f) = 1056 -> Vi("C26", "session after a request")
                [] Service(f) = 1057 -> Vi("C25", "session after an acknowledgement")
                [] OTHER -> Vi("C24", "session")
      parts == If(e.s.rc # ss.rc, Vi("C26", "expected counter") \cup Vi("C19", "expected counter of the client"))
               \cup If(e.s.lc # ss.lc, Vi("C25", "send counter") \cup Vi("C20", "send counter of the client"))
               \cup If(e.s.ch # ss.ch, Vi("C25", "channel") \cup Vi("C26", "channel") \cup Vi("C21", "channel of the client"))
      \* what the client says of itself, if it does
      conn == If(e.conn \in {0, 1} /\ (e.conn = 1) # r.c.on, Vi("C24", "connected"))
  IN IF e.s = ss THEN R(r.c, r.v \cup conn) ELSE R([r.c EXCEPT !.s = e.s], r.v \cup tags \cup parts \cup conn)
SameDecoded(exp, act) == \* exp, act: sequences of sequences of messages
  /\ Len(exp) = Len(act)
  /\ \A j \in 1..Len(exp) : NonApp(exp[j]) = NonApp(act[j]) /\ SameBag(App(exp[j]), App(act[j]))
\* the value of a read is not compared
Clean(ms) == [j \in 1..Len(ms) |-> [n \in 1..Len(ms[j]) |->
                 IF ms[j][n].k = "group" THEN [ms[j][n] EXCEPT !.val = IF ms[j][n].svc = "read" THEN <<>> ELSE Significant(ms[j][n].dpt, @)] ELSE ms[j][n]]]
\* which address a search response names is C22 and C28
NoIa(ms) == [n \in 1..Len(ms) |-> IF ms[n].k = "searchres" THEN [ms[n] EXCEPT !.ia = 0] ELSE ms[n]]
NonEmpty(ms) == SelectSeq(ms, LAMBDA m : m # <<>>)
TEvent(cc, e) ==
  CASE e.op = "start" -> LET r == View(Settle(Outs(TStart(cc), e.outs, {})), e, <<>>)
                         IN R(r.c, r.v \cup If(e.local # cc.me, Vi("C24", "local endpoint")) \cup If(e.remote # cc.gw, Vi("C24", "remote endpoint")))
    [] e.op = "dgram" ->
         LET rx == TReceive(cc, e.f)
             skip == ~e.ok /\ rx.lenient
             r == View(Settle(Outs(IF skip THEN cc ELSE rx.c, e.outs, {})), e, e.f)
             wrongOn == rx.msgs = <<>> /\ e.outs # <<>> /\ ~cc.on
         IN R(r.c, r.v \cup If(wrongOn, Vi("C24", "reacts to a datagram which grants nothing"))
                       \cup If(~skip /\ ~SameDecoded(NonEmpty(<<NoIa(rx.msgs)>>), NonEmpty(Clean([j \in 1..Len(e.got) |-> NoIa(e.got[j])]))), Vi("C26", "telegram accepted")))
    [] e.op = "wait" -> View(Settle(Outs(cc, e.outs, {})), e, <<>>)
    [] e.op = "end" -> LET r == View(Settle(Outs(cc, e.outs, {})), e, <<>>)
                       IN R(r.c, r.v \cup If(cc.on /\ ~(Finished(r.c) /\ e.done), Vi("C25", "not finished"))
                                     \cup If(cc.on /\ r.c.k = 1 /\ Len(cc.msgs) > 0, Vi("C24", "sends nothing although connected"))
                                     \cup If(~cc.on /\ e.done /\ Len(cc.msgs) > 0, Vi("C25", "finished without a connection")))
(* ---- USB client ------------------------------------------------------------ *)
UEvent(cc, e) ==
  LET w == UWrite(cc, e.out)
      rx == IF e.op = "feed" THEN UReceive(w.c, e.o) ELSE [c |-> w.c, msgs |-> <<>>]
  IN R([rx.c EXCEPT !.out = IF w.ok THEN @ ELSE <<>>],
       If(~w.ok, Vi("C27", "written"))
       \cup If(~SameDecoded(rx.msgs, NonEmpty(Clean(e.got))), Vi("C27", "decoded lines"))
       \cup If(e.op = "start" /\ e.remote # e.daemon, Vi("C27", "daemon address"))
       \cup If(e.op = "end" /\ (rx.c.k # Len(cc.msgs) + 1 \/ rx.c.out # <<>>), Vi("C27", "messages written")))
(* ---- discovery -------------------------------------------------------------- *)
Multicast == [ip |-> <<224, 0, 23, 12>>, port |-> 3671]
SearchReq(me) == Encode(Ip, <<>>, Sess(0, 0, 0), [k |-> "search", ip |-> me.ip, port |-> me.port]).o
DEvent(kind, cc, e) ==
  IF kind = "request"
  THEN R([cc EXCEPT !.sent = TRUE],
         If(e.outs # (IF cc.sent \/ e.op # "start" THEN <<>> ELSE <<[to |-> Multicast, o |-> SearchReq(cc.me)]>>), Vi("C28", "search request")))
  ELSE R(cc, If(e.outs # <<>>, Vi("C28", "the listener sends"))
             \cup (IF e.op # "dgram" THEN {}
                   ELSE LET r == Decode(Ip, NewTables(0, <<>>, 255), Sess(0, 0, 0), e.f)
                            exp == OfKind(r.msgs, "searchres")
                            act == [j \in 1..Len(e.got) |-> OfKind(e.got[j], "searchres")]
                        IN IF NonEmpty(<<exp>>) = NonEmpty(act) THEN {}
                           ELSE IF Len(NonEmpty(act)) = 1 /\ Misread(e.f, NonEmpty(act)[1]) THEN Vi("C28", MediumStatus)
                           ELSE Vi("C28", "answer")))

Init == h \in 1..Len(Hist) /\ i = 0 /\ c = <<>> /\ bad = {}
Next ==
  LET evs == Hist[h].ev
      kind == Hist[h].kind
  IN
  \/ /\ i < Len(evs)
     /\ LET e == evs[i + 1] IN
        IF e.op = "crash" \/ "hang" \in DOMAIN e
        THEN bad' = bad \cup {<<i + 1, "*", "failed or did not return">>} /\ UNCHANGED c
        ELSE IF e.op = "resume" THEN c' = [c EXCEPT !.s = e.s] /\ UNCHANGED bad
        ELSE IF e.op = "new" THEN c' = Born(e) /\ UNCHANGED bad
        ELSE LET r == CASE kind = "tunnel" -> TEvent(c, e) [] kind = "usb" -> UEvent(c, e) [] OTHER -> DEvent(kind, c, e)
             IN c' = r.c /\ bad' = bad \cup {<<i + 1>> \o v : v \in r.v}
     /\ i' = i + 1
     /\ UNCHANGED h
  \/ /\ i = Len(evs)
     /\ PrintT("@@" \o ToJson([h |-> h, n |-> i, bad |-> bad]))
     /\ i' = i + 1
     /\ UNCHANGED <<h, c, bad>>
Spec == Init /\ [][Next]_vars
=============================================================================
