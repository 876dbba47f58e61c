------------------------------ MODULE BadLink ------------------------------
(* Wrong definitions for MCLink (see BadCodec).                                *)
EXTENDS MCLink

\* the neighbouring bit is set too
BadSetBits(b, lo, n, v) == LET ww == IF lo + n < 8 THEN n + 1 ELSE n IN b - (Bits(b, lo, ww) * Pow2(lo)) + (v * Pow2(lo))
\* a kind is set without clearing the control bits
BadSetUnit(oo, ctl, num) == IF ctl = 0 /\ num = 0 THEN oo ELSE [oo EXCEPT ![8] = SetBits(SetBits(@, 7, 1, ctl), 6, 1, num)]
BadPutField(oo, f, v) ==
  CASE f = "source" -> [oo EXCEPT ![3] = Lo(v), ![4] = Hi(v)]
    [] f = "destination" -> [oo EXCEPT ![3] = Hi(v), ![4] = Lo(v)]
    [] f = "address_type" -> [oo EXCEPT ![2] = SetBits(@, 7, 1, v)]
    [] f = "connected" -> [oo EXCEPT ![8] = SetBits(@, 7, 1, v)]
    [] f = "apci" -> [oo EXCEPT ![8] = v \div 256, ![9] = v % 256]
    [] f = "data" -> [oo EXCEPT ![9] = SetBits(@, 0, 6, v)]
    [] f = "nsdu" -> [oo EXCEPT ![8] = @ % 4]
\* setting a field counts up what was there
BadCount(oo, f, v) == IF f = "source" THEN [oo EXCEPT ![4] = (@ + 1) % 256] ELSE oo
BadShort(oo, f, v) == Take(oo, 8) \o <<oo[9] * 2>>
=============================================================================
