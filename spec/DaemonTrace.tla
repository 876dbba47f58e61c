---------------------------- MODULE DaemonTrace ----------------------------
(* Recorded histories of the real daemon process judged against KnxDaemon.
   An event is a step: ops happened at once; got is what the clients then had
   received, dev what was written to the device.                              *)
EXTENDS KnxDaemon, Json, IOUtils, TLC

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, d, bad
\* d: conns (id -> connection), faulty (something left or failed before)
vars == <<h, i, d, bad>>
Vi(p, what) == {<<p, what>>}
If(b, s) == IF b THEN s ELSE {}

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
OpsOf(e, c) == SelectSeq(e.ops, LAMBDA x : x.c = c)
Named(e) == {e.ops[j].c : j \in 1..Len(e.ops)} \ {0}
New(e) == {c \in Named(e) : \E j \in 1..Len(e.ops) : e.ops[j].c = c /\ e.ops[j].k = "connect"}
Does(e, c, ks) == \E j \in 1..Len(e.ops) : e.ops[j].c = c /\ e.ops[j].k \in ks
Leaving(e, c) == Does(e, c, {"close", "half", "reset"})
DataOf(e, c) == Cat([j \in 1..Len(OpsOf(e, c)) |-> OpsOf(e, c)[j].o])
Reports(e) == LET r == SelectSeq(e.ops, LAMBDA x : x.k = "report") IN [j \in 1..Len(r) |-> ReportLine(r[j].o)]
Infixes(rs) == {Cat(SubSeq(rs, a, b)) : a \in 1..(Len(rs) + 1), b \in 0..Len(rs)}
Prefixes(rs) == {Cat(SubSeq(rs, 1, b)) : b \in 0..Len(rs)}
Suffixes(rs) == {Cat(SubSeq(rs, a, Len(rs))) : a \in 1..(Len(rs) + 1)}
Before(c) == IF c \in DOMAIN d.conns THEN d.conns[c] ELSE Gone
OnBefore == {c \in DOMAIN d.conns : d.conns[c].on}
Crowded(e) == Cardinality(OnBefore) + Cardinality(New(e)) > MaxClients
\* the connection after the step, before anything was read from it
Conn(e, c) ==
  LET old == IF c \in New(e) THEN NewConn(Crowded(e)) ELSE Before(c)
      rs == Reports(e)
      more == IF c \in New(e) THEN (IF Leaving(e, c) THEN Infixes(rs) ELSE Suffixes(rs))
              ELSE IF Leaving(e, c) THEN Prefixes(rs) ELSE {Cat(rs)}
      rx == Receive(old.buf, DataOf(e, c))
  IN IF old.stalled \/ Does(e, c, {"stall"}) THEN [old EXCEPT !.stalled = TRUE, !.any = TRUE, !.owed = {<<>>}, !.buf = rx.buf]
     ELSE [old EXCEPT !.owed = {t \o m : t \in @, m \in more}, !.buf = rx.buf]
PacketsBy(e, c) == Receive(IF c \in New(e) THEN <<>> ELSE Before(c).buf, DataOf(e, c)).packets
RECURSIVE SubseqAt(_, _, _, _)
SubseqAt(a, b, p, q) == IF p > Len(a) THEN TRUE ELSE IF q > Len(b) THEN FALSE
                        ELSE IF a[p] = b[q] THEN SubseqAt(a, b, p + 1, q + 1) ELSE SubseqAt(a, b, p, q + 1)
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + SumOver(S \ {c}, f)
\* a connection which was reset may lose what it sent last
Optional(e, c) == Does(e, c, {"reset"}) \/ (IF c \in New(e) THEN Crowded(e) ELSE Before(c).any)
DeviceOk(e) ==
  LET cs == {c \in Named(e) : DataOf(e, c) # <<>>}
      by == TLCEval([c \in cs |-> TLCEval(PacketsBy(e, c))])
  IN /\ \A c \in cs : Optional(e, c) \/ SubseqAt(by[c], e.dev, 1, 1)
     /\ \A j \in 1..Len(e.dev) : Count(e.dev, e.dev[j]) <= SumOver(cs, [c \in cs |-> Count(by[c], e.dev[j])])
     /\ \A c \in cs : Optional(e, c) \/ \A j \in 1..Len(by[c]) :
            Count(e.dev, by[c][j]) >= SumOver({x \in cs : ~Optional(e, x)}, [x \in cs |-> Count(by[x], by[c][j])])
Faulty(e) == d.faulty \/ \E j \in 1..Len(e.ops) : e.ops[j].k \in {"close", "half", "reset", "abort", "stall"}
Both(e, p, what) == Vi(p, what) \cup If(Faulty(e), Vi("C36", what))
GotTags(e, x) ==
  LET c == Conn(e, x.c) IN
  IF x.partial THEN If(~Before(x.c).any /\ x.o \notin Before(x.c).owed, Both(e, "C34", "reports a client got before it left"))
  ELSE If(~c.any /\ x.o \notin c.owed, Both(e, "C34", "reports of a client"))
       \cup If(x.eof /\ ~Leaving(e, x.c), Vi("C36", "connection closed") \cup Vi("C34", "connection closed"))
       \cup If(~x.eof /\ Does(e, x.c, {"half"}), Vi("C36", "connection not closed"))
Tags(e) ==
  IF ~e.alive THEN Vi("*", "the daemon ended")
  ELSE IF e.stuck THEN Vi("C34", "the daemon does not go on") \cup Vi("C35", "the daemon does not go on") \cup Vi("C36", "the daemon does not go on")
  ELSE UNION {GotTags(e, e.got[j]) : j \in 1..Len(e.got)}
       \cup If(~DeviceOk(e), Both(e, "C35", "reports written to the device"))
       \cup If(LET open == {c \in OnBefore \cup New(e) : ~Leaving(e, c)}
               IN e.fds \notin Cardinality({c \in open : ~Conn(e, c).stalled})..Cardinality(open), Vi("C36", "open connections"))
After(e) ==
  LET read(c) == \E j \in 1..Len(e.got) : e.got[j].c = c /\ ~e.got[j].partial
      ended(c) == Leaving(e, c) \/ \E j \in 1..Len(e.got) : e.got[j].c = c /\ e.got[j].eof
  IN [conns |-> [c \in {c \in OnBefore \cup New(e) : ~ended(c)} |-> IF read(c) THEN [Conn(e, c) EXCEPT !.owed = {<<>>}] ELSE Conn(e, c)],
      faulty |-> Faulty(e)]

Init == h \in 1..Len(Hist) /\ i = 0 /\ d = [conns |-> <<>>, faulty |-> FALSE] /\ bad = {}
Next ==
  LET evs == Hist[h].ev IN
  \/ /\ i < Len(evs)
     /\ LET e == evs[i + 1] IN
        IF e.op = "crash" \/ "hang" \in DOMAIN e
        THEN bad' = bad \cup {<<i + 1, "*", "failed or did not return">>} /\ UNCHANGED d
        ELSE bad' = bad \cup {<<i + 1>> \o v : v \in Tags(e)} /\ d' = After(e)
     /\ i' = i + 1
     /\ UNCHANGED h
  \/ /\ i = Len(evs)
     /\ PrintT("@@" \o ToJson([h |-> h, n |-> i, bad |-> bad]))
     /\ i' = i + 1
     /\ UNCHANGED <<h, d, bad>>
Spec == Init /\ [][Next]_vars
=============================================================================
