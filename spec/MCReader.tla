------------------------------ MODULE MCReader ------------------------------
(* Reading a message from its front in every way: single numbers and blocks.
   With Emit every transition is printed, to be replayed on real messages.   *)
EXTENDS KnxValues, TLC, Json
CONSTANTS Emit, Lengths, Seeds
VARIABLES o, rest, taken
vars == <<o, rest, taken>>
OnlyRest == <<o, rest, taken>>

Message(n, s) == [i \in 1..n |-> (i * 37 + s * i * i) % 256]
Init == \E n \in Lengths, s \in Seeds : o = Message(n, s) /\ rest = o /\ taken = <<>>
Read(k) == /\ Len(rest) >= TakeSize(k)
           /\ rest' = Drop(rest, TakeSize(k)) /\ taken' = taken \o Take(rest, TakeSize(k)) /\ UNCHANGED o
           /\ (Emit => PrintT("@@" \o ToJson([p |-> [o |-> o, r |-> rest], c |-> [kind |-> k], q |-> [o |-> o, r |-> Drop(rest, TakeSize(k))]])))
Short(k) == /\ Len(rest) < TakeSize(k) /\ UNCHANGED vars
            /\ (Emit => PrintT("@@" \o ToJson([p |-> [o |-> o, r |-> rest], c |-> [kind |-> k], q |-> [o |-> o, r |-> rest]])))
Next == \E k \in Numbers \cup Blocks : Read(k) \/ Short(k)
Spec == Init /\ [][Next]_vars

\* nothing is lost, doubled or reordered
Whole == taken \o rest = o
\* the order of reading does not matter for what is left
Left == Len(rest) <= Len(o) /\ rest = Drop(o, Len(o) - Len(rest))
\* a long number is two short ones is four octets; a block says octets of its own only
Same == Len(rest) >= 4 =>
  /\ Says("long", rest) = Says("short", rest) \o Says("short", Drop(rest, 2))
  /\ Says("short", rest) = Says("octect", rest) \o Says("octect", Drop(rest, 1))
  /\ BlockSays("header", rest) = Drop(Says("long", rest), 1)
  /\ BlockSays("CRI", rest) = Take(BlockSays("header", rest), 2)
  /\ BlockSays("CRD", rest)[2] = Word(Says("short", Drop(rest, 2))[1], Says("short", Drop(rest, 2))[2])
Endpoint == Len(rest) >= 8 => Take(BlockSays("HPAI", rest), 4) = Says("long", Drop(rest, 2))
=============================================================================
