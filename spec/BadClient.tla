------------------------------ MODULE BadClient ------------------------------
(* Wrong definitions for MCClient (see BadCodec).                              *)
EXTENDS MCClient

\* a refused connection counts as granted
BadReact(cl, xx) ==
  CASE xx.k = "conres" -> Owe([cl EXCEPT !.s.rc = 0, !.s.lc = 0, !.on = TRUE], [k |-> "connstate", ip |-> cl.me.ip, port |-> cl.me.port])
    [] xx.k = "treq" /\ xx.st = 0 -> Owe(cl, [k |-> "ack", ctr |-> xx.ctr, st |-> 0])
    [] OTHER -> cl
\* the counters of the former connection are kept
BadKeeps(cl, xx) ==
  CASE xx.k = "conres" /\ xx.st = 0 -> Owe([cl EXCEPT !.on = TRUE], [k |-> "connstate", ip |-> cl.me.ip, port |-> cl.me.port])
    [] xx.k = "treq" /\ xx.st = 0 -> Owe(cl, [k |-> "ack", ctr |-> xx.ctr, st |-> 0])
    [] OTHER -> cl
\* everything is acknowledged
BadAcks(cl, xx) ==
  CASE xx.k = "conres" /\ xx.st = 0 -> Owe([cl EXCEPT !.s.rc = 0, !.s.lc = 0, !.on = TRUE], [k |-> "connstate", ip |-> cl.me.ip, port |-> cl.me.port])
    [] xx.k = "treq" -> Owe(cl, [k |-> "ack", ctr |-> xx.ctr, st |-> xx.st])
    [] OTHER -> cl
\* a state response is acknowledged
BadOther(cl, xx) ==
  CASE xx.k = "conres" /\ xx.st = 0 -> Owe([cl EXCEPT !.s.rc = 0, !.s.lc = 0, !.on = TRUE], [k |-> "connstate", ip |-> cl.me.ip, port |-> cl.me.port])
    [] xx.k = "treq" /\ xx.st = 0 -> Owe(cl, [k |-> "ack", ctr |-> xx.ctr, st |-> 0])
    [] xx.k = "csres" -> Owe(cl, [k |-> "ack", ctr |-> 0, st |-> 0])
    [] OTHER -> cl
\* messages are sent before a connection is granted
BadNextMessage(cl) == IF cl.k <= Len(cl.msgs) THEN EncT(cl, cl.msgs[cl.k]).o ELSE <<>>
BadSendNext(cl) == [cl EXCEPT !.k = @ + 2]
\* the next message goes out with each acknowledgement, too
BadReceive(cl, f) == LET r == Decode(Ip, cl.t, cl.s, f)
                         c2 == ReactAll([cl EXCEPT !.s = r.s], r.msgs)
                     IN [c |-> IF Len(r.msgs) > 0 /\ r.msgs[1].k = "tack" /\ NextMessage(cl) # <<>> THEN [c2 EXCEPT !.owed = Append(@, NextMessage(cl))] ELSE c2,
                         msgs |-> r.msgs, lenient |-> r.lenient]
=============================================================================
