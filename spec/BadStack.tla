------------------------------ MODULE BadStack ------------------------------
(* Wrong definitions for MCStack (see BadCodec).                               *)
EXTENDS MCStack

BadReceivers(tt, a) == LET r == SelectSeq(tt.gobj, LAMBDA e : IsIn(e.asap, AsapsOf(tt, a))) IN IF r = <<>> THEN r ELSE <<r[1]>>
\* reached whether the address is held or not
BadAsapsOf(tt, a) == LET hit == SelectSeq(tt.assoc, LAMBDA e : IsIn(a, e.addrs)) IN [i \in 1..Len(hit) |-> hit[i].asap]
\* sent to an address which is not held any more
BadAddressesOf(tt, p) == Listed(tt, p)
BadAckSent(ss1, ctr) == [ss1 EXCEPT !.rc = Inc(@)]
BadAckReceived(ss1, ctr, st) == IF st = 0 THEN [ss1 EXCEPT !.lc = Inc(@)] ELSE ss1
BadTableAdd(tt, a) == Res(TRUE, [tt EXCEPT !.addrs = InsertSorted(@, a)])
\* all sessions of a device share their counters
BadStep(ww, c) ==
  CASE c.op \in TableOps -> LET r == TableOp(ww.tabs[c.k], c) IN SRes(r.ok, <<>>, <<>>, [ww EXCEPT !.tabs = [k \in 1..Len(@) |-> r.t]], FALSE)
    [] c.op = "dec" -> LET ss == ww.ss[c.s] r == Decode(ss.m, ww.tabs[ss.k], ss.s, c.f)
                       IN SRes(TRUE, r.msgs, <<>>, [ww EXCEPT !.ss[c.s].s = r.s], r.lenient)
    [] c.op = "enc" -> LET ss == ww.ss[c.s] r == Encode(ss.m, ww.tabs[ss.k], ss.s, c.x)
                       IN SRes(r.ok, <<>>, r.o, [ww EXCEPT !.ss[c.s].s = r.s], FALSE)
BadShared(ww, c) ==
  CASE c.op \in TableOps -> LET r == TableOp(ww.tabs[c.k], c) IN SRes(r.ok, <<>>, <<>>, [ww EXCEPT !.tabs[c.k] = r.t], FALSE)
    [] c.op = "dec" -> LET ss == ww.ss[c.s] r == Decode(ss.m, ww.tabs[ss.k], ss.s, c.f)
                       IN SRes(TRUE, r.msgs, <<>>, [ww EXCEPT !.ss = [i \in 1..Len(@) |-> IF @[i].k = ss.k /\ @[i].m = ss.m THEN [@[i] EXCEPT !.s = r.s] ELSE @[i]]], r.lenient)
    [] c.op = "enc" -> LET ss == ww.ss[c.s] r == Encode(ss.m, ww.tabs[ss.k], ss.s, c.x)
                       IN SRes(r.ok, <<>>, r.o, [ww EXCEPT !.ss[c.s].s = r.s], FALSE)
=============================================================================
