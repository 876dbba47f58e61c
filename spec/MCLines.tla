------------------------------ MODULE MCLines ------------------------------
(* The USB client between its application and the daemon: a stream of lines cut
   at any of the chosen places, and messages written in between.

   Inv says that what the client delivered so far is exactly the telegrams of
   the lines complete so far, wherever the stream was cut (C27).              *)
EXTENDS KnxClient, TLC, Json

CONSTANTS Kinds, N, NMsgs, Emit
VARIABLES ks, pos, c, got, last
vars == <<ks, pos, c, got, last>>

T == SetDpt(Associate(NewTables(4353, <<>>, 255), 1, <<2305>>).t, 1, "DPT_Switch").t
Msgs == [i \in 1..NMsgs |-> [k |-> "groupwrite", asap |-> 1, dpt |-> "DPT_Switch", val |-> <<0, 0, 0, i % 2>>]]

LowerHex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
UpperHex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE HexText(_, _)
HexText(o, up) == IF o = <<>> THEN <<>>
                  ELSE (IF up THEN <<UpperHex(Head(o) \div 16), UpperHex(Head(o) % 16)>> ELSE <<LowerHex(Head(o) \div 16), LowerHex(Head(o) % 16)>>)
                       \o HexText(Tail(o), up)
Report(n) == WrapUsb(Cemi(LDataInd, <<188, 224, 17, 1, 9, 1, 1, 0, 128 + n>>))
Text(k) ==
  CASE k = "on" -> HexText(Report(1), FALSE)
    [] k = "off" -> HexText(Report(0) \o [i \in 1..5 |-> 0], TRUE)
    [] k = "feature" -> HexText(<<1, 19, 10, 0, 8, 0, 2, 15, 4, 0, 0, 3, 1>>, FALSE)
    [] k = "foreign" -> HexText([Report(1) EXCEPT ![1] = 2], FALSE)
    [] k = "cut" -> HexText(Take(Report(1), 9), FALSE)
    [] k = "words" -> <<104, 101, 108, 108, 111>>
    [] k = "bytes" -> <<255, 254, 195>>
    [] k = "empty" -> <<>>
Line(k) == Append(Text(k), 10)
RECURSIVE Stream(_)
Stream(s) == IF s = <<>> THEN <<>> ELSE Line(Head(s)) \o Stream(Tail(s))
\* the places where the stream may be cut: about the ends of lines and inside them
CutsOf(k) == LET n == Len(Line(k)) IN {i \in {1, 2, n \div 2, n - 2, n - 1, n} : i \in 1..n}
Before(s, j) == Len(Stream(SubSeq(s, 1, j - 1)))
Cuts(s) == UNION {{Before(s, j) + i : i \in CutsOf(s[j])} : j \in 1..Len(s)}

Init == /\ ks \in [1..N -> Kinds] /\ pos = 0 /\ c = UClient(T, Msgs) /\ got = <<>>
        /\ last = [op |-> "start"]
Feed(to) == LET o == SubSeq(Stream(ks), pos + 1, to)
                r == UReceive(c, o)
            IN /\ c' = r.c /\ got' = got \o r.msgs /\ pos' = to
               /\ last' = [op |-> "feed", o |-> o]
\* the next message is written, as a line
Tick == /\ c.k <= NMsgs
        /\ LET o == Append(HexText(Encode(Usb, T, Sess(0, 0, 0), Msgs[c.k]).o, TRUE), 10)
               r == UWrite(c, o)
           IN r.ok /\ c' = r.c /\ last' = [op |-> "tick"]
        /\ UNCHANGED <<pos, got>>
\* what identifies a state in the graph, and all there is of one
All == <<ks, pos, c, got>>
View == [ks |-> ks, pos |-> pos, k |-> c.k]
Next == /\ \/ \E to \in Cuts(ks) : to > pos /\ Feed(to)
           \/ Tick
        /\ UNCHANGED ks
        /\ (Emit => PrintT("@@" \o ToJson([p |-> View, c |-> last', q |-> View'])))
Spec == Init /\ [][Next]_vars

Complete == {j \in 1..N : Before(ks, j) + Len(Line(ks[j])) <= pos}
Due == SelectSeq([j \in 1..Cardinality(Complete) |-> LineMsgs(T, Text(ks[j]))], LAMBDA m : m # <<>>)
\* C27
Inv == /\ got = Due
       /\ c.buf = SubSeq(Stream(ks), 1 + Before(ks, Cardinality(Complete) + 1), pos)
Decodable == {"on", "off", "feature"}
Counted == Len(got) = Cardinality({j \in Complete : ks[j] \in Decodable})
\* reading and writing do not disturb each other
Apart == [][IF last'.op = "tick" THEN c'.buf = c.buf /\ c'.k = c.k + 1 ELSE c'.k = c.k]_vars
=============================================================================
