------------------------------ MODULE BadReader ------------------------------
(* Wrong definitions for MCReader (see BadCodec).                              *)
EXTENDS MCReader

BadTake(ss1, n) == IF n > 4 THEN SubSeq(ss1, 1, 4) ELSE SubSeq(ss1, 1, IF n < Len(ss1) THEN n ELSE Len(ss1))
BadBlockSays(k, m) == CASE k = "HPAI" -> SubSeq(m, 2, 5) \o <<Word(m[7], m[8])>>
                        [] k = "CRI" -> <<m[2], m[4]>>
                        [] k = "CRD" -> <<m[2], Word(m[4], m[3])>>
                        [] k = "header" -> <<m[2], m[4], m[3]>>
BadSays(k, m) == IF k \in Blocks THEN BlockSays(k, m) ELSE IF k = "long" THEN <<m[3], m[4], m[1], m[2]>> ELSE Take(m, TakeSize(k))
BadDrop(ss1, n) == IF n = 8 THEN SubSeq(ss1, 8, Len(ss1)) ELSE SubSeq(ss1, n + 1, Len(ss1))
=============================================================================
