---------------------------- MODULE MCDaemonRun ----------------------------
(* The daemon seen from its environment, for replay: two client places, short
   pieces of lines, steps of one or two simultaneous operations.  The
   properties checked here are those of the specification itself.             *)
EXTENDS KnxDaemon, Json, TLC
CONSTANTS MaxBuf, Pairs, Emit
VARIABLES c, act
\* c[p]: [on, buf]
Places == {1, 2}
Pieces == {<<48>>, <<70, NL>>, <<49, 50, NL>>, <<NL>>, <<49, 50, CR>>, <<CR, NL>>, <<120>>, <<97, NL, 97>>}
Off == [on |-> FALSE, buf |-> <<>>]
Op(k, p, o) == [k |-> k, c |-> p, o |-> o]
\* one operation: the new state of the places
Can(cc, x) == CASE x.k = "connect" -> ~cc[x.c].on
               [] x.k = "data" -> cc[x.c].on /\ Len(Receive(cc[x.c].buf, x.o).buf) <= MaxBuf
               [] x.k \in {"close", "half"} -> cc[x.c].on
               [] OTHER -> TRUE
Do(cc, x) == CASE x.k = "connect" -> [cc EXCEPT ![x.c] = [on |-> TRUE, buf |-> <<>>]]
              [] x.k = "data" -> [cc EXCEPT ![x.c].buf = Receive(@, x.o).buf]
              [] x.k \in {"close", "half"} -> [cc EXCEPT ![x.c] = Off]
              [] OTHER -> cc
AllOps == {Op("connect", p, <<>>) : p \in Places} \cup {Op(k, p, <<>>) : k \in {"close", "half"}, p \in Places}
          \cup {Op("data", p, o) : p \in Places, o \in Pieces} \cup {Op("report", 0, <<0, 171>>), Op("abort", 0, <<>>)}
Init == c = [p \in Places |-> Off] /\ act = <<>>
Next == \E x \in AllOps : /\ Can(c, x)
        /\ \/ act' = <<x>> /\ c' = Do(c, x)
           \/ /\ Pairs
              /\ \E y \in AllOps : /\ Can(Do(c, x), y)
                                   \* a place is not left and taken again at once
                                   /\ ~(x.k \in {"close", "half"} /\ y.c = x.c)
                                   /\ act' = <<x, y>> /\ c' = Do(Do(c, x), y)
        /\ (Emit => PrintT("@@" \o ToJson([p |-> c, c |-> [ops |-> act'], q |-> c'])))
Spec == Init /\ [][Next]_<<c, act>>
View == c
\* no octet of a client's partial line outlives the client, and a line is kept until it ends
Fresh == \A p \in Places : ~c[p].on => c[p].buf = <<>>
Partial == \A p \in Places : \A i \in 1..Len(c[p].buf) : c[p].buf[i] \notin Ends
\* however a text is split, the same lines come out
RECURSIVE InPieces(_, _)
InPieces(buf, ps) == IF ps = <<>> THEN [buf |-> buf, packets |-> <<>>]
                     ELSE LET r == Receive(buf, Head(ps)) s == InPieces(r.buf, Tail(ps))
                          IN [buf |-> s.buf, packets |-> r.packets \o s.packets]
SplitFree == \A p \in Places : \A a, b \in Pieces : Receive(c[p].buf, a \o b) = InPieces(c[p].buf, <<a, b>>)
=============================================================================
