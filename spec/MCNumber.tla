------------------------------ MODULE MCNumber ------------------------------
(* One number (an octet, 16 or 32 bits) made, changed as a whole and by parts in
   any order (C44).  o: its octets, most significant first.  handed: what it gave
   out, which is a value of its own.                                           *)
EXTENDS KnxValues, TLC, Json
CONSTANTS Emit, Samples
VARIABLES kind, o, handed
vars == <<kind, o, handed>>

SamplesDef == <<<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<18, 52, 86, 120>>, <<161, 1, 127, 254>>>>
Fill(k, s) == [i \in 1..TakeSize(k) |-> s[i]]
\* the values a part is given
PartSamples(k) == IF k = "octect" THEN {0, 5, 10, 15} ELSE {0, 1, 128, 255}
Node == [kind |-> kind, o |-> o]
Step(c) == Emit => PrintT("@@" \o ToJson([p |-> Node, c |-> c, q |-> [kind |-> kind, o |-> o']]))
Init == kind \in Numbers /\ o = Fill(kind, Samples[1]) /\ handed = <<>>
Whole == \E s \in {Samples[i] : i \in 1..Len(Samples)} : o' = Fill(kind, s) /\ Step([op |-> "value", o |-> o'])
Part == \E j \in 1..Len(NumParts(kind, o)) : \E v \in PartSamples(kind) : o' = NumWith(kind, o, j, v) /\ Step([op |-> "part", j |-> j, v |-> v])
Hand == o' = o /\ Step([op |-> "hand"])
Next == (Whole \/ Part \/ Hand) /\ handed' = NumParts(kind, o) /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
Reachable == \A j \in 1..Len(NumParts(kind, o)) : NumParts(kind, o)[j] \in 0..255

\* a number is made of its parts, and they of it
Made == NumFrom(kind, NumParts(kind, o)) = o
\* a part given is read, the others stay
Given == \A j \in 1..Len(NumParts(kind, o)) : \A v \in PartSamples(kind) :
           LET p == NumParts(kind, NumWith(kind, o, j, v)) IN p[j] = v /\ \A i \in 1..Len(p) : i = j \/ p[i] = NumParts(kind, o)[i]
\* the value is that of the parts, the first one the most significant; the text shows the value
Value16 == kind = "short" => Word(o[1], o[2]) = NumParts(kind, o)[1] * 256 + NumParts(kind, o)[2]
Nibbles == kind = "octect" => o[1] = NumParts(kind, o)[1] * 16 + NumParts(kind, o)[2]
Shown == Parse(Drop(HexText(o), 2)) = o
=============================================================================
