------------------------------ MODULE BadSession ------------------------------
(* Wrong definitions for MCSession (see BadCodec).                             *)
EXTENDS MCSession

\* every acknowledgement counts
BadAckSent(ss1, ctr) == [ss1 EXCEPT !.rc = Inc(@)]
BadJump(ss1, ctr) == IF ctr = ss1.rc THEN [ss1 EXCEPT !.rc = (ctr + 2) % 256] ELSE ss1
BadAckReceived(ss1, ctr, st) == IF ctr = ss1.lc THEN [ss1 EXCEPT !.lc = Inc(@)] ELSE ss1
BadAnyAck(ss1, ctr, st) == IF st = 0 THEN [ss1 EXCEPT !.lc = (ctr + 1) % 256] ELSE ss1
\* any earlier counter is a repetition
BadClassify(ss1, ctr) == IF ctr = ss1.rc THEN "expected" ELSE IF ctr < ss1.rc THEN "repeated" ELSE "sequence"
BadInc(n) == IF n = 255 THEN 1 ELSE n + 1
BadWrapIp(ss1, cemi) == <<6, 16, 4, 32>> \o Be16(Len(cemi) + 10) \o <<4, ss1.ch, (ss1.lc + 1) % 256, 0>> \o cemi
\* a refused connection takes the channel too
BadDecode(m, tt, ss1, oo) == LET r == DecodeIp(tt, ss1, oo) IN
  IF Word(oo[3], oo[4]) = 518 /\ oo[8] # 0 THEN [r EXCEPT !.s.ch = oo[7]] ELSE r
BadFirst(m, tt, ss1, oo) == LET r == DecodeIp(tt, ss1, oo) IN
  IF Word(oo[3], oo[4]) = 518 /\ ss1.ch # 0 THEN [r EXCEPT !.s.ch = ss1.ch] ELSE r
\* the next counter is named instead of the one received
BadEncode(m, tt, ss1, xx) == IF xx.k = "ack" THEN EncRes(TRUE, <<6, 16, 4, 33, 0, 10, 4, ss1.ch, ss1.rc, xx.st>>, AckSent(ss1, xx.ctr))
                         ELSE IF xx.k = "groupread" THEN EncRes(TRUE, WrapIp(ss1, <<>>), ss1) ELSE EncRes(TRUE, <<6, 16, 2, 7, 0, 16, ss1.ch, 0>>, ss1)
BadCore(m, tt, ss1, xx) == IF xx.k \in {"connstate", "disconnect"} THEN EncRes(TRUE, <<6, 16, 2, 7, 0, 16, 0, ss1.ch>>, ss1)
                       ELSE IF xx.k = "ack" THEN EncRes(TRUE, <<6, 16, 4, 33, 0, 10, 4, ss1.ch, xx.ctr, xx.st>>, AckSent(ss1, xx.ctr)) ELSE EncRes(TRUE, WrapIp(ss1, <<>>), ss1)
=============================================================================
