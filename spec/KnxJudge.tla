------------------------------ MODULE KnxJudge ------------------------------
(* Comparing what the real stack did in one recorded call with what Step says.
   Every operator yields a set of <<property, what>>: empty = conforming.     *)
EXTENDS KnxStack, KnxText, KnxLink

Vi(p, what) == {<<p, what>>}
If(b, s) == IF b THEN s ELSE {}
Has(e, f) == f \in DOMAIN e

SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
SetSeq(s) == {s[i] : i \in 1..Len(s)}

(***************************************************************************)
(* Tables: a snapshot read through the public lookups                      *)
(***************************************************************************)
NoZero(s) == SelectSeq(s, LAMBDA x : x # 0)
SnapTags(t, n) ==
     If(n.addrs # t.addrs, Vi("C12", "addresses"))
  \cup If(n.max # t.max, Vi("C12", "maximum"))
  \cup If(n.ia # t.ia, Vi("C12", "individual address") \cup Vi("C16", "individual address"))
  \cup If(n.ia2 # t.ia, Vi("C16", "individual address of the association table"))
  \cup If(n.tsaps # [i \in 1..(Len(t.addrs) + 1) |-> i - 1], Vi("C12", "access points"))
  \cup If(\E i \in 1..Len(n.byt) : n.byt[i] # AddressOf(t, i - 1), Vi("C12", "access point to address"))
  \cup If(\E i \in 1..Len(n.look) : n.look[i].n # Tsap(t, n.look[i].a), Vi("C12", "address to access point"))
  \cup If(SetSeq(n.asaps) # RangeOf(KnownAsaps(t)) \/ Len(n.asaps) # Len(KnownAsaps(t)), Vi("C13", "group objects"))
  \cup If(\E i \in 1..Len(n.rel) : n.rel[i].as # AddressesOf(t, n.rel[i].p), Vi("C13", "addresses of a group object"))
  \cup If(\E i \in 1..Len(n.rel) : n.rel[i].ts # TsapsOf(t, n.rel[i].p), Vi("C13", "access points of a group object"))
  \cup If(\E i \in 1..Len(n.rev) : n.rev[i].n > 0 /\ ~SameBag(NoZero(n.rev[i].ps), AsapsOf(t, AddressOf(t, n.rev[i].n))), Vi("C13", "group objects of an access point"))
  \cup If(\E i \in 1..Len(n.bya) : Tsap(t, n.bya[i].a) # 0 /\ ~SameBag(NoZero(n.bya[i].ps), AsapsOf(t, n.bya[i].a)), Vi("C13", "group objects of an address"))
  \cup If(n.free # FreeAsap(t), Vi("C15", "free number"))
  \cup If(~SameBag(n.gobj, t.gobj), Vi("C16", "datapoint types"))
\* the configuration a snapshot shows: judging continues from there
FromSnap(t, n) ==
  LET clean(s) == SelectSeq(s, LAMBDA a : a >= 0)
  IN [ia |-> n.ia, max |-> t.max, addrs |-> clean(n.addrs),
      assoc |-> [i \in 1..Len(n.rel) |-> [asap |-> n.rel[i].p, addrs |-> clean(n.rel[i].as)]],
      gobj |-> n.gobj]
OpProperty(op) == CASE op \in {"tadd", "tremove"} -> "C12" [] op \in {"assoc", "disassoc"} -> "C13" [] OTHER -> "C16"
\* before: the configuration before the call, r: the result of the specification, e: the event
TableTags(before, r, e) ==
  LET st == IF Has(e, "snap") THEN SnapTags(r.t, e.snap) ELSE {}
      \* adding to a full table has to be refused; taking away what is not there may be ignored
      mustFail == ~r.ok /\ e.op \in {"tadd", "assoc"}
  IN st \cup If(r.ok /\ ~e.ok, Vi(OpProperty(e.op), "refused"))
        \cup If(mustFail /\ e.ok, Vi("C12", "not refused"))
        \cup If(~e.ok /\ Has(e, "snap") /\ SnapTags(before, e.snap) # {}, Vi("C14", "a failed operation changed the tables"))

(***************************************************************************)
(* Sessions                                                                *)
(***************************************************************************)
\* w: world the specification expects; e.ssa: all sessions afterwards
SessTags(w, e, foreign) ==
  LET ex == w.ss[e.s].s
      ac == e.ssa[e.s]
  IN If(ac.rc # ex.rc, Vi("C19", "expected counter") \cup If(foreign, Vi("C08", "expected counter")))
     \cup If(ac.lc # ex.lc, Vi("C20", "send counter") \cup If(foreign, Vi("C08", "send counter")))
     \cup If(ac.ch # ex.ch, Vi("C21", "channel") \cup If(foreign, Vi("C08", "channel")))
     \cup If(\E i \in 1..Len(w.ss) : i # e.s /\ e.ssa[i] # w.ss[i].s, Vi("C23", "another session changed"))
     \cup If(\E k \in 1..Len(e.snaps) : SnapTags(w.tabs[e.snaps[k].k], e.snaps[k].snap) # {},
             Vi("C23", "tables changed") \cup If(foreign, Vi("C08", "tables changed"))
             \cup UNION {SnapTags(w.tabs[e.snaps[k].k], e.snaps[k].snap) : k \in 1..Len(e.snaps)})

(***************************************************************************)
(* Decoded messages                                                        *)
(***************************************************************************)
App(ms) == SelectSeq(ms, LAMBDA x : x.k \in AppKinds)
NonApp(ms) == SelectSeq(ms, LAMBDA x : x.k \notin AppKinds)
\* how far a frame gets: "foreign" (not for this stack), "code", "service", "address" or "ok"
UsbBody(o) == IF Len(o) < 11 THEN <<>> ELSE LET r == Take(Drop(o, 3), o[3]) IN
              IF Len(r) < 8 THEN <<>> ELSE Take(Drop(r, 4), Word(r[3], r[4]) + 4)
CemiOf(m, o) == IF m = Ip THEN Drop(o, 10) ELSE Drop(UsbBody(o), 4)
LinkStage(c) ==
  IF Len(c) < 2 THEN "foreign"
  ELSE LET l == Drop(c, 2 + c[2]) IN
       IF c[1] \notin {LDataInd, LDataCon} THEN "code"
       ELSE IF Len(l) < 9 \/ ~PlainData(l) \/ (IsGroupFrame(l) /\ Dst(l) = 0) THEN "foreign"
       ELSE IF IsGroupFrame(l) THEN (IF GroupService(l) = "none" THEN "service" ELSE "address")
       ELSE IF PropService(l) = "none" THEN "service" ELSE IF Len(Payload(l)) < 4 THEN "foreign" ELSE "address"
Stage(m, s, o) ==
  IF m = Ip THEN
    (IF Len(o) < 10 \/ o[1] # 6 \/ o[2] # 16 \/ Word(o[3], o[4]) # 1056 THEN "foreign"
     ELSE IF Classify(s, o[9]) # "expected" THEN "session" ELSE LinkStage(CemiOf(m, o)))
  ELSE IF Len(o) < 11 \/ o[1] # 1 \/ o[2] % 16 # 3 \/ o[4] # 0 \/ o[5] # 8 THEN "foreign"
       ELSE LET b == UsbBody(o) IN
            IF Len(b) < 4 THEN "foreign"
            ELSE IF b[1] # 1 \/ b[2] # 3 \/ b[3] # 0 \/ b[4] # 0 THEN "foreign" ELSE LinkStage(Drop(b, 4))

\* is the payload as long as datapoint type d wants it?
Fits(d, p, short) == IF DptType[d].sub THEN short ELSE ~short /\ Len(p) = DptType[d].size
\* expected value x against the logged raw value (four octets)
SameVal(x, a, fit) == ~fit \/ x.svc = "read" \/ x.val = Significant(x.dpt, a.val)
GroupTags(exp, act, link) ==
  LET fit(d) == Fits(d, Payload(link), Len(link) <= 9)
      shape(x) == <<x.asap, x.dpt>>
      pairs == {<<x, a>> \in SetSeq(exp) \X SetSeq(act) : shape(x) = shape(a)}
      xs == [i \in 1..Len(exp) |-> shape(exp[i])]
      as == [i \in 1..Len(act) |-> shape(act[i])]
  IN If(~SameBag(xs, as), Vi("C01", "group objects reached") \cup If((exp = <<>>) # (act = <<>>), Vi("C18", "delivery")))
     \cup UNION {LET x == p[1] a == p[2] IN
                 If(x.svc # a.svc \/ x.dir # a.dir, Vi("C04", "service or direction"))
                 \cup If(x.st # a.st, Vi("C05", "confirmation status"))
                 \cup If(~SameVal(x, a, fit(x.dpt)), Vi("C03", "value")) : p \in pairs}
PropTags(exp, act) ==
  IF Len(exp) # Len(act) THEN Vi("C11", "delivery") \cup Vi("C18", "delivery")
  ELSE UNION {LET x == exp[i] a == act[i] IN
              If(x.svc # a.svc \/ x.dir # a.dir, Vi("C04", "service or direction"))
              \cup If(x.st # a.st, Vi("C05", "confirmation status"))
              \cup If([x EXCEPT !.svc = "", !.dir = "", !.st = 0] # [a EXCEPT !.svc = "", !.dir = "", !.st = 0], Vi("C11", "fields")) : i \in 1..Len(exp)}
KindTags(k) == CASE k = "feature" -> Vi("C09", "feature report") [] k = "treq" -> Vi("C18", "tunnelling request")
                 [] k = "tack" -> Vi("C20", "tunnelling acknowledgement") [] k \in {"conres", "csres", "disres", "searchres"} -> Vi("C22", "response")
                 [] OTHER -> Vi("C08", "unknown message")
OfKind(ms, k) == SelectSeq(ms, LAMBDA x : x.k = k)
Kinds(ms) == {ms[i].k : i \in 1..Len(ms)}
SeqOfKindTags(exp, act) ==
  IF exp = act THEN {} ELSE UNION {KindTags(k) : k \in {k \in Kinds(exp) \cup Kinds(act) : OfKind(exp, k) # OfKind(act, k) \/ Len(exp) = Len(act)}}
\* the one misreading which is a known finding: the medium and status octets of a search response taken for the address
MediumStatus == "search response: the individual address is read from the medium and status octets"
Misread(f, act) == /\ Len(f) >= 18 /\ SubSeq(f, 1, 4) = <<6, 16, 2, 2>>
                   /\ act = <<MSearchRes(SubSeq(f, 9, 12), Word(f[13], f[14]), Word(f[17], f[18]))>>
\* ss: session before, t: tables, f: frame, r: what Decode says, e: event
DecodeTags(ss, t, f, r, e) ==
  LET stage == Stage(ss.m, ss.s, f)
      act == e.msgs
      link == LET c == CemiOf(ss.m, f) IN IF Len(c) < 2 THEN <<>> ELSE Drop(c, 2 + c[2])
      exA == App(r.msgs)  acA == App(act)
      exG == OfKind(r.msgs, "group") acG == OfKind(act, "group")
      exP == OfKind(r.msgs, "prop") acP == OfKind(act, "prop")
  IN IF ~e.ok THEN
       (IF r.msgs = <<>> \/ r.lenient THEN {}
        ELSE UNION {IF k = "group" THEN Vi("C01", "refused") \cup Vi("C03", "refused") \cup Vi("C04", "refused") \cup If(r.msgs[Len(r.msgs)].dir = "con", Vi("C05", "refused"))
                    ELSE IF k = "prop" THEN Vi("C11", "refused") ELSE KindTags(k) : k \in Kinds(r.msgs)})
     ELSE IF r.lenient /\ acA = <<>> /\ NonApp(act) = NonApp(r.msgs) THEN {}
     ELSE IF r.msgs # act /\ ss.m = Ip /\ Misread(f, act) THEN Vi("C22", MediumStatus)
     ELSE SeqOfKindTags(NonApp(r.msgs), NonApp(act))
          \cup (IF exA = <<>> /\ acA # <<>> THEN
                  (CASE stage = "foreign" -> Vi("C08", "delivered")
                     [] stage = "session" -> Vi("C18", "delivered")
                     [] stage \in {"code", "service"} -> Vi("C04", "delivered")
                     [] OTHER -> IF acG # <<>> THEN Vi("C01", "delivered") ELSE Vi("C11", "delivered"))
                ELSE (IF exG # <<>> \/ acG # <<>> THEN GroupTags(exG, acG, link) ELSE {})
                     \cup (IF exP # <<>> \/ acP # <<>> THEN PropTags(exP, acP) ELSE {})
                     \cup If(exA # <<>> /\ acA = <<>>, Vi("C04", "not delivered") \cup If(exG # <<>>, Vi("C03", "not delivered"))))

(***************************************************************************)
(* Encoded frames                                                          *)
(***************************************************************************)
GroupKinds == {"groupread", "groupwrite", "groupwriteind"}
PropKinds == {"propread", "propwrite"}
ControlKinds == {"tconnect", "tdisconnect"}
At(o, i) == IF i <= Len(o) THEN o[i] ELSE -1
LinkTags(x, ex, ac) == \* from the message code on
  LET differ(i, j) == SubSeq(ex, i, Min2(j, Len(ex))) # SubSeq(ac, i, Min2(j, Len(ac)))
      grp == x.k \in GroupKinds
  IN If(differ(1, 6) \/ differ(9, 9), Vi("C06", "link frame"))
     \cup If(differ(7, 8), Vi(IF grp THEN "C02" ELSE "C10", "destination"))
     \cup If(differ(10, 11), IF x.k = "groupread" THEN Vi("C04", "application service") ELSE IF grp THEN Vi("C03", "application octets") ELSE Vi("C10", "application octets"))
     \cup If(differ(12, 400), IF grp THEN Vi("C03", "payload") ELSE Vi("C10", "payload"))
     \cup If(Len(ex) # Len(ac), Vi("C06", "length"))
FrameTags(m, x, ex, ac) ==
  IF x.k \in GroupKinds \cup PropKinds \cup ControlKinds THEN
    LET h == CASE m = Usb -> 11 [] m = Ip -> 10 [] OTHER -> 0
    IN If(\E i \in 1..h : ~(m = Ip /\ i \in {8, 9}) /\ At(ac, i) # At(ex, i), Vi("C06", "header"))
       \cup If(m = Ip /\ At(ac, 8) # At(ex, 8), Vi("C21", "channel of a request") \cup Vi("C20", "channel of a request"))
       \cup If(m = Ip /\ At(ac, 9) # At(ex, 9), Vi("C20", "counter of a request"))
       \cup (IF x.k \in ControlKinds THEN Vi("C37", "transport control request") ELSE LinkTags(x, Drop(ex, h), Drop(ac, h)))
  ELSE IF x.k = "ack" THEN
    Vi("C19", "acknowledgement") \cup If(At(ac, 8) # At(ex, 8), Vi("C21", "channel of an acknowledgement"))
  ELSE Vi("C22", "request") \cup If(x.k \in {"connstate", "disconnect"} /\ At(ac, 7) # At(ex, 7), Vi("C21", "channel of a request"))
EncodeTags(m, r, e) ==
  LET x == e.x IN
  IF r.ok /\ ~e.ok THEN (IF x.k \in GroupKinds THEN Vi("C02", "refused") \cup Vi("C03", "refused") \cup Vi("C06", "refused")
                         ELSE IF x.k \in ControlKinds THEN Vi("C37", "refused")
                         ELSE IF x.k \in PropKinds THEN Vi("C10", "refused") \cup Vi("C06", "refused")
                         ELSE IF x.k = "ack" THEN Vi("C19", "refused") ELSE Vi("C22", "refused"))
  ELSE IF ~r.ok /\ e.ok THEN Vi("C02", "frame for a group object without address")
  ELSE IF r.ok /\ r.o # e.o THEN FrameTags(m, x, r.o, e.o)
  ELSE {}

(***************************************************************************)
(* Relations between calls                                                 *)
(***************************************************************************)
\* the same call on a fresh session of the same tables, on a freshly built stack
Outcome(e) == [ok |-> e.ok, msgs |-> IF Has(e, "msgs") THEN e.msgs ELSE <<>>, o |-> IF Has(e, "o") THEN e.o ELSE <<>>]
SameOutcome(a, b) == /\ a.ok = b.ok /\ a.o = b.o
                     /\ NonApp(a.msgs) = NonApp(b.msgs) /\ SameBag(App(a.msgs), App(b.msgs))
Fresh(e, f, p) == If(~SameOutcome(Outcome(e), Outcome(f)) \/ e.ssa[e.s] # f.ssa1, Vi(p, "differs from a fresh one"))
FreshTags(e) == (IF Has(e, "fs") THEN Fresh(e, e.fs, "C23") ELSE {}) \cup (IF Has(e, "fr") THEN Fresh(e, e.fr, "C16") ELSE {})
                \cup If(Has(e, "x2"), Vi("C23", "message modified"))
\* e.is: events which must have the same outcome (app = TRUE: same application messages)
SameTags(evs, e) ==
  LET out(i) == LET o == Outcome(evs[i]) IN IF e.app THEN [ok |-> TRUE, msgs |-> IF o.ok THEN App(o.msgs) ELSE <<>>, o |-> <<>>] ELSE o
  IN If(\E i \in 2..Len(e.is) : ~SameOutcome(out(e.is[1]), out(e.is[i])), Vi(e.tag, e.what))
\* event e.d decodes what event e.e encoded, on a device which knows the address
TripTags(evs, e) ==
  LET x == evs[e.e].x
      d == e.dpt
      got == SelectSeq(evs[e.d].msgs, LAMBDA m : m.k = "group" /\ m.dpt = d)
  IN If(~evs[e.d].ok \/ got = <<>> \/ \E i \in 1..Len(got) : Significant(d, got[i].val) # Significant(d, x.val), Vi("C03", "round trip"))

(***************************************************************************)
(* Texts, link frame views, names, values of their own                     *)
(***************************************************************************)
\* e.at, e.ast, e.got: the lines of the texts of the three tables of configuration t
TextTags(t, e) ==
  LET own == AddressTableText(t)
      rows(s, head, tail) == SubSeq(s, head + 1, Len(s) - tail)
      n == Len(t.assoc) + 1
      listed(l) == /\ Len(e.ast) = 1 + n + Len(own)
                   /\ Take(e.ast, 1) = AssocHead /\ Drop(e.ast, 1 + n) = own
                   /\ SameBag(SubSeq(e.ast, 2, 1 + n), AssocRows(t, e.names, l))
  IN If(e.at # own, Vi("C39", "text of the address table"))
     \cup If(~listed(TRUE) /\ ~listed(FALSE), Vi("C39", "text of the association table"))
     \cup If(~(/\ Take(e.got, 1) = ObjectHead /\ Len(e.got) = Len(t.gobj) + 2 /\ e.got[Len(e.got)] = ""
              /\ SameBag(rows(e.got, 1, 1), ObjectRows(t, e.names))), Vi("C39", "text of the group object table"))
MessageTextTags(e) == If(e.text # MessageText(e.x, AsapText(e.names, e.x.asap), e.dpt, e.data), Vi("C39", "text of a message"))
RequestTextTags(e) == If(e.text # MessageText(e.x, "", "", ""), Vi("C39", "text of a request"))

\* e.o: the octets, e.view, e.rest: what the code shows, e.sets: fields set one after the other, with the view and the frame (if it shows) after each
RECURSIVE SetTags(_, _)
SetTags(o, sets) ==
  IF sets = <<>> THEN {}
  ELSE LET p == PutField(o, sets[1].f, sets[1].v)
       IN If(~sets[1].ok \/ sets[1].view # LinkView(p) \/ sets[1].o \notin {<<>>, p}, Vi("C38", "after setting " \o sets[1].f)) \cup SetTags(p, Tail(sets))
LinkViewTags(e) ==
  IF Len(e.o) < 9 THEN If(e.ok, Vi("C38", "a frame without a whole header"))
  ELSE IF ~e.ok THEN Vi("C38", "refused")
  ELSE If(e.view # LinkView(e.o), Vi("C38", "fields")) \cup If(e.rest # AfterHeader(e.o), Vi("C38", "octets after the header")) \cup SetTags(Take(e.o, 9), e.sets)

\* two group objects which may have names: e.p, e.q numbers; e.eq, e.hash, e.one: equal, same hash, one element of a set
NameTags(e) == If(e.eq # (e.p = e.q) \/ e.one # (e.p = e.q) \/ (e.p = e.q /\ ~e.hash) \/ e.ne # (e.p # e.q) \/ e.v # <<e.p, e.q>>, Vi("C40", "equality of group objects"))
\* what a session answers about telegram e.f (a link frame) and group object e.p of tables t; -1: nothing
SessionAnswers(t, f, p) ==
  LET a == Dst(f)
      listed == IF p = 0 THEN <<t.ia>> ELSE AddressesOf(t, p)
  IN [tsap |-> Tsap(t, a), asaps |-> AsapsOf(t, a), ad |-> Receivers(t, a), ia |-> t.ia,
      tsaps |-> IF p = 0 THEN <<0>> ELSE TsapsOf(t, p), addrs |-> listed, dpt |-> IF HasDpt(t, p) THEN DptOf(t, p) ELSE "none"]
AskTags(t, e) ==
  LET x == SessionAnswers(t, e.f, e.p)
  IN If(e.tsap # x.tsap, Vi("C42", "access point of a telegram"))
     \cup If(~SameBag(NoZero(e.asaps), x.asaps), Vi("C42", "group objects of a telegram"))
     \cup If(~SameBag(e.ad, x.ad), Vi("C42", "group objects and types of a telegram"))
     \cup If(e.tsaps # x.tsaps, Vi("C42", "access points of the group object"))
     \cup If(e.addrs # x.addrs, Vi("C42", "addresses of the group object"))
     \cup If(e.dpt # x.dpt, Vi("C42", "datapoint type of the group object"))
     \cup If(e.ia # x.ia, Vi("C42", "individual address"))
     \cup If(e.kept # <<Dst(e.f), e.p>>, Vi("C42", "telegram or group object of the session"))
\* e.set: numbers given to the two counters, e.got: what they are
CounterTags(e) == If(e.got # <<e.set[1] % 256, e.set[2] % 256>>, Vi("C42", "counters") \cup Vi("C20", "counters modulo 256"))
\* the text of a session: e.lines without indentation and empty lines; e.ast, e.got: those of its tables
SessionTextTags(ss, e) ==
  LET n == Len(e.ast) m == Len(e.got)
  IN If(~(/\ Len(e.lines) >= n + m + 3
          /\ e.lines[1] = "State for Medium." \o (CASE ss.m = Usb -> "usb_hid" [] ss.m = Ip -> "knxnet_ip" [] OTHER -> "tp")
          /\ SubSeq(e.lines, 2, 1 + n) = e.ast /\ SubSeq(e.lines, 2 + n, 1 + n + m) = e.got
          /\ SubSeq(e.lines, Len(e.lines) - 1, Len(e.lines)) = <<"Sequence Counter (remote): " \o ToString(ss.s.rc), "Sequence Counter (local): " \o ToString(ss.s.lc)>>),
        Vi("C39", "text of a session"))
EqualTags(e) == If(e.a # e.b, Vi(e.tag, e.what))
OtherTags(w, evs, e) ==
  CASE e.op = "same" -> SameTags(evs, e)
    [] e.op = "trip" -> TripTags(evs, e)
    [] e.op = "text" -> TextTags(w.tabs[e.k], e)
    [] e.op = "mtext" -> MessageTextTags(e)
    [] e.op = "rtext" -> RequestTextTags(e)
    [] e.op = "link" -> LinkViewTags(e)
    [] e.op = "names" -> NameTags(e)
    [] e.op = "ask" -> AskTags(w.tabs[w.ss[e.s].k], e)
    [] e.op = "counters" -> CounterTags(e)
    [] e.op = "stext" -> SessionTextTags(w.ss[e.s], e)
    [] e.op = "equal" -> EqualTags(e)
=============================================================================
