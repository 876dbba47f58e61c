----------------------------- MODULE KnxClient -----------------------------
(* The clients shipped with the stack, as state machines over what they receive
   and what they send.

   A tunnelling client c:
     t, s     its configuration and session (KnxStack)
     msgs     the messages it was given, k the number of the next one
     me, gw   its own endpoint and the gateway's: [ip, port]
     on       a connect response granted a connection
     owed     the datagrams it has to send before anything else, in order      *)
EXTENDS KnxStack, SequencesExt, TLC

Endpoint(ip, port) == [ip |-> ip, port |-> port]
TClient(t, s, msgs, me, gw) == [t |-> t, s |-> s, msgs |-> msgs, k |-> 1, me |-> me, gw |-> gw, on |-> FALSE, owed |-> <<>>]
EncT(c, x) == Encode(Ip, c.t, c.s, x)
Owe(c, x) == LET r == EncT(c, x) IN [c EXCEPT !.owed = Append(@, r.o), !.s = r.s]

TStart(c) == Owe(c, [k |-> "connect", ip |-> c.me.ip, port |-> c.me.port, ip2 |-> c.me.ip, port2 |-> c.me.port])
React(c, x) ==
  CASE x.k = "conres" /\ x.st = 0 ->
         LET c2 == [c EXCEPT !.s.rc = 0, !.s.lc = 0, !.on = TRUE]
         IN Owe(c2, [k |-> "connstate", ip |-> c.me.ip, port |-> c.me.port])
    [] x.k = "treq" /\ x.st = 0 -> Owe(c, [k |-> "ack", ctr |-> x.ctr, st |-> 0])
    [] OTHER -> c
RECURSIVE ReactAll(_, _)
ReactAll(c, ms) == IF ms = <<>> THEN c ELSE ReactAll(React(c, Head(ms)), Tail(ms))
\* a datagram arrives: [c, msgs, lenient]
TReceive(c, f) == LET r == Decode(Ip, c.t, c.s, f)
                  IN [c |-> ReactAll([c EXCEPT !.s = r.s], r.msgs), msgs |-> r.msgs, lenient |-> r.lenient]
\* what it may send next
NextMessage(c) == IF c.on /\ c.k <= Len(c.msgs) THEN EncT(c, c.msgs[c.k]).o ELSE <<>>
PayOwed(c) == [c EXCEPT !.owed = Tail(@)]
SendNext(c) == [c EXCEPT !.k = @ + 1]
Finished(c) == c.on /\ c.k > Len(c.msgs)

(***************************************************************************)
(* The USB client: buf holds the octets of the line not yet complete          *)
(***************************************************************************)
UClient(t, msgs) == [t |-> t, msgs |-> msgs, k |-> 1, buf |-> <<>>, out |-> <<>>, open |-> TRUE]
HexDigit(b) == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] b \in 97..102 -> b - 87 [] OTHER -> -1
IsHexText(l) == Len(l) % 2 = 0 /\ \A i \in 1..Len(l) : HexDigit(l[i]) >= 0
OctetsOfHex(l) == [i \in 1..(Len(l) \div 2) |-> HexDigit(l[2 * i - 1]) * 16 + HexDigit(l[2 * i])]
\* [lines, rest] of a text: lines end with 10
\* the lines which end in o (after done), and what is left of the last; cur: what came before o
LinesOf(done, cur, o) ==
  LET ends == SetToSortSeq({j \in 1..Len(o) : o[j] = 10}, <)
      from(n) == IF n = 1 THEN 1 ELSE ends[n - 1] + 1
      line(n) == (IF n = 1 THEN cur ELSE <<>>) \o SubSeq(o, from(n), ends[n] - 1)
      k == Len(ends)
  IN [lines |-> done \o TLCEval([n \in 1..k |-> line(n)]),
      rest |-> (IF k = 0 THEN cur ELSE <<>>) \o SubSeq(o, from(k + 1), Len(o))]
LineMsgs(t, l) == IF IsHexText(l) THEN Decode(Usb, t, Sess(0, 0, 0), OctetsOfHex(l)).msgs ELSE <<>>
\* octets arrive: [c, msgs], msgs[i] the messages of the i-th line which has any
UReceive(c, o) == LET r == LinesOf(<<>>, c.buf, o)
                      all == [i \in 1..Len(r.lines) |-> LineMsgs(c.t, r.lines[i])]
                  IN [c |-> [c EXCEPT !.buf = r.rest], msgs |-> SelectSeq(all, LAMBDA m : m # <<>>)]
\* octets are written: complete lines must be the next messages, the rest a beginning of one
UWrite(c, o) == LET r == LinesOf(<<>>, c.out, o)
                    good(i) == /\ c.k + i - 1 <= Len(c.msgs)
                               /\ IsHexText(r.lines[i])
                               /\ OctetsOfHex(r.lines[i]) = Encode(Usb, c.t, Sess(0, 0, 0), c.msgs[c.k + i - 1]).o
                IN [ok |-> \A i \in 1..Len(r.lines) : good(i),
                    c |-> [c EXCEPT !.out = r.rest, !.k = @ + Len(r.lines)]]
=============================================================================
