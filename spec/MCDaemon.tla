------------------------------ MODULE MCDaemon ------------------------------
(* The daemon from inside: one process looping over select, a table of client
   slots, line buffers kept per descriptor, descriptors reused after a close,
   and writes which fail because the other side has gone.  Its environment are
   clients which connect, send their lines in pieces, leave or stop reading at
   any moment, and a device which reports.  Checked: every client gets exactly the reports of
   its time, every complete line reaches the device once and unmixed, nothing
   ends the daemon.  Bug names a broken variant, to see the properties fail.  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Clients, Fds, Slots, Reports, Pieces, Aborts, Stallers, Room, Bug
P2 == <<"a", "n">>
P3 == <<"a", "n", "a">>
P4 == <<"a", "n", "a", "n">>
\* Fds: descriptors for clients 1..n, Slots: places of the table 1..m, Pieces: pieces a client sends: "a" part of a line, "n" its end
\* Stallers: how many clients may stop reading; Room: the reports which then still fit into the buffers of their connection
VARIABLES st, inq, sent, backlog, fd, slot, buf, devq, nread, got, since, until, dev, ready, alive, made, aborts, room
env == <<st, sent, made, aborts>>
vars == <<st, inq, sent, backlog, fd, slot, buf, devq, nread, got, since, until, dev, ready, alive, made, aborts, room>>
LISTEN == 0 - 1
DEV == 0
Free == 0
Reading == 0 - 1

Init == /\ st = [c \in Clients |-> "new"] /\ inq = [c \in Clients |-> <<>>] /\ sent = [c \in Clients |-> 0]
        /\ backlog = <<>> /\ fd = [f \in Fds |-> Free] /\ slot = [s \in Slots |-> Free] /\ buf = [f \in Fds |-> <<>>]
        /\ devq = <<>> /\ nread = 0 /\ got = [c \in Clients |-> <<>>] /\ since = [c \in Clients |-> 0 - 1] /\ until = [c \in Clients |-> 0 - 1]
        /\ dev = <<>> /\ ready = {} /\ alive = TRUE /\ made = 0 /\ aborts = 0
        /\ room = [c \in Clients |-> Reading]
FdOf(c) == IF \E f \in Fds : fd[f] = c THEN CHOOSE f \in Fds : fd[f] = c ELSE Free

(* ---- environment ---- *)
Connect(c) == /\ st[c] = "new" /\ \A b \in Clients : b < c => st[b] # "new"
              /\ st' = [st EXCEPT ![c] = "open"] /\ backlog' = Append(backlog, c)
              /\ UNCHANGED <<inq, sent, fd, slot, buf, devq, nread, got, since, until, dev, ready, alive, made, aborts, room>>
Abort == /\ aborts < Aborts /\ aborts' = aborts + 1 /\ backlog' = Append(backlog, 0)
         /\ UNCHANGED <<st, inq, sent, fd, slot, buf, devq, nread, got, since, until, dev, ready, alive, made, room>>
Send(c) == /\ st[c] = "open" /\ sent[c] < Len(Pieces)
           /\ sent' = [sent EXCEPT ![c] = @ + 1]
           /\ inq' = [inq EXCEPT ![c] = Append(@, <<Pieces[sent[c] + 1], c, sent[c] + 1>>)]
           /\ UNCHANGED <<st, backlog, fd, slot, buf, devq, nread, got, since, until, dev, ready, alive, made, aborts, room>>
Leave(c) == /\ st[c] = "open" /\ st' = [st EXCEPT ![c] = "left"] /\ inq' = [inq EXCEPT ![c] = Append(@, <<"eof">>)]
            /\ UNCHANGED <<sent, backlog, fd, slot, buf, devq, nread, got, since, until, dev, ready, alive, made, aborts, room>>
Stall(c) == /\ st[c] = "open" /\ room[c] = Reading /\ Cardinality({b \in Clients : room[b] # Reading}) < Stallers
            /\ room' = [room EXCEPT ![c] = Room]
            /\ UNCHANGED <<st, inq, sent, backlog, fd, slot, buf, devq, nread, got, since, until, dev, ready, alive, made, aborts>>
Report == /\ made < Reports /\ made' = made + 1 /\ devq' = Append(devq, made + 1)
          /\ UNCHANGED <<st, inq, sent, backlog, fd, slot, buf, nread, got, since, until, dev, ready, alive, aborts, room>>

(* ---- daemon ---- *)
Readable == (IF backlog # <<>> THEN {LISTEN} ELSE {}) \cup (IF devq # <<>> THEN {DEV} ELSE {}) \cup {f \in Fds : fd[f] # Free /\ inq[fd[f]] # <<>>}
Select == /\ alive /\ ready = {} /\ Readable # {} /\ ready' = Readable
          /\ UNCHANGED <<st, inq, sent, backlog, fd, slot, buf, devq, nread, got, since, until, dev, alive, made, aborts, room>>
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
Turn(x) == alive /\ ready # {} /\ x = Lowest(ready) /\ ready' = ready \ {x}
Accept == /\ Turn(LISTEN)
          /\ backlog' = Tail(backlog)
          /\ IF Head(backlog) = 0
             THEN alive' = (Bug # "abort") /\ UNCHANGED <<fd, slot, since>>
             ELSE /\ \E f \in Fds : fd[f] = Free
                  /\ LET f == CHOOSE f \in Fds : fd[f] = Free /\ \A g \in Fds : fd[g] = Free => f <= g
                         ss == {s \in Slots : slot[s] = Free}
                     IN /\ fd' = [fd EXCEPT ![f] = Head(backlog)]
                        /\ slot' = IF ss = {} THEN slot ELSE [slot EXCEPT ![Lowest(ss)] = f]
                        /\ since' = [since EXCEPT ![Head(backlog)] = nread]
                  /\ UNCHANGED alive
          /\ UNCHANGED <<st, inq, sent, buf, devq, nread, got, until, dev, made, aborts, room>>
\* the table is written slot by slot; a client registered twice gets a report twice
Times(c) == Cardinality({s \in Slots : slot[s] # Free /\ fd[slot[s]] = c})
Rep(r, n) == [k \in 1..n |-> r]
ReadDevice == /\ Turn(DEV)
              /\ LET r == Head(devq) IN
                 /\ devq' = Tail(devq) /\ nread' = nread + 1
                 \* a client whose buffers are full is given up: its connection is shut down
                 /\ LET full == {c \in Clients : st[c] = "open" /\ room[c] = 0 /\ Times(c) > 0} IN
                    /\ got' = [c \in Clients |-> got[c] \o Rep(r, IF st[c] # "open" \/ c \in full THEN 0 ELSE Times(c))]
                    /\ room' = [c \in Clients |-> IF room[c] > 0 /\ Times(c) > 0 THEN room[c] - 1 ELSE room[c]]
                    /\ IF Bug = "blocks" THEN UNCHANGED <<st, inq>>
                       ELSE /\ st' = [c \in Clients |-> IF c \in full THEN "given up" ELSE st[c]]
                            /\ inq' = [c \in Clients |-> IF c \in full THEN Append(inq[c], <<"eof">>) ELSE inq[c]]
                    /\ alive' = ~(\/ Bug = "sigpipe" /\ \E c \in Clients : st[c] = "left" /\ Times(c) > 0
                                  \/ Bug = "blocks" /\ full # {})
              /\ UNCHANGED <<sent, backlog, fd, slot, buf, since, until, dev, made, aborts>>
\* consume pieces one by one: [b, d]
RECURSIVE Consume(_, _, _)
Consume(b, q, d) == IF q = <<>> THEN [b |-> b, d |-> d]
                    ELSE IF Head(q)[1] = "n" THEN Consume(<<>>, Tail(q), IF b = <<>> THEN d ELSE Append(d, b))
                    ELSE Consume(Append(b, Head(q)), Tail(q), d)
Key(f) == IF Bug = "shared" THEN Lowest(Fds) ELSE f
ReadClient(f) ==
  /\ Turn(f)
  /\ LET c == fd[f] IN
     IF Head(inq[c]) = <<"eof">>
     THEN /\ fd' = [fd EXCEPT ![f] = Free]
          /\ slot' = IF Bug = "slot" THEN slot ELSE [s \in Slots |-> IF slot[s] = f THEN Free ELSE slot[s]]
          /\ buf' = IF Bug = "stale" THEN buf ELSE [buf EXCEPT ![Key(f)] = <<>>]
          /\ inq' = [inq EXCEPT ![c] = <<>>]
          /\ until' = [until EXCEPT ![c] = nread]
          /\ UNCHANGED dev
     ELSE \E n \in 1..Len(inq[c]) : \* a read takes any number of pieces there are
          /\ \A j \in 1..n : inq[c][j] # <<"eof">>
          /\ LET r == Consume(buf[Key(f)], SubSeq(inq[c], 1, n), dev) IN
             /\ buf' = [buf EXCEPT ![Key(f)] = r.b]
             /\ dev' = r.d
             /\ inq' = [inq EXCEPT ![c] = SubSeq(@, n + 1, Len(@))]
          /\ UNCHANGED <<fd, slot, until>>
  /\ UNCHANGED <<st, sent, backlog, devq, nread, got, since, alive, made, aborts, room>>
Daemon == Select \/ Accept \/ ReadDevice \/ \E f \in Fds : ReadClient(f)
Next == Daemon \/ (\E c \in Clients : Connect(c) \/ Send(c) \/ Leave(c) \/ Stall(c)) \/ Abort \/ Report
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Daemon)

Survives == alive
\* the reports a client got are those read from its acceptance on (as long as it stays)
Span(a, b) == [k \in 1..(b - a) |-> a + k]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
EachReport == \A c \in Clients :
  /\ since[c] = 0 - 1 => got[c] = <<>>
  /\ since[c] >= 0 => IF st[c] = "open" /\ until[c] = 0 - 1 THEN got[c] = Span(since[c], nread)
                      ELSE IsPrefix(got[c], Span(since[c], nread))
\* lines at the device: those of each client in order, whole, once
RECURSIVE LinesTo(_, _)
LinesTo(c, n) == \* the lines complete within the first n pieces of c
  IF n = 0 THEN <<>>
  ELSE IF Pieces[n] = "n"
       THEN LET from == IF \E j \in 1..(n - 1) : Pieces[j] = "n" THEN CHOOSE j \in 1..(n - 1) : Pieces[j] = "n" /\ \A k \in (j + 1)..(n - 1) : Pieces[k] # "n" ELSE 0
                IN LinesTo(c, from) \o (IF n - 1 > from THEN <<[k \in 1..(n - 1 - from) |-> <<Pieces[from + k], c, from + k>>]>> ELSE <<>>)
       ELSE LinesTo(c, n - 1)
Of(c, l) == \A k \in 1..Len(l) : l[k][2] = c
Consumed(c) == sent[c] - Cardinality({k \in 1..Len(inq[c]) : inq[c][k] # <<"eof">>})
EachLine == /\ \A k \in 1..Len(dev) : \E c \in Clients : Of(c, dev[k])
            /\ \A c \in Clients : SelectSeq(dev, LAMBDA l : Of(c, l)) = LinesTo(c, Consumed(c))
\* everything which happened is eventually dealt with
Served == <>[](backlog = <<>> /\ devq = <<>> /\ \A c \in Clients : inq[c] = <<>>)
Places == Cardinality({f \in Fds : fd[f] # Free}) <= Cardinality(Fds)
=============================================================================
