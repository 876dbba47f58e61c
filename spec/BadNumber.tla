------------------------------ MODULE BadNumber ------------------------------
(* Wrong definitions for MCNumber (see BadCodec).                             *)
EXTENDS MCNumber
\* the nibbles and octets the other way round
BadNumParts(k, os) == IF k = "octect" THEN <<os[1] % 16, os[1] \div 16>> ELSE [j \in 1..Len(os) |-> os[Len(os) + 1 - j]]
\* a part spills into the next one
BadNumWith(k, os, j, v) == NumFrom(k, [x \in 1..Len(NumParts(k, os)) |-> IF x = j THEN v ELSE IF x = j + 1 /\ v > 127 THEN 0 ELSE NumParts(k, os)[x]])
BadHexText(os) == <<48, 120>> \o Drop(Print(os), 2)
==============================================================================
