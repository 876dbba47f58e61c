----------------------------- MODULE BadSystem -----------------------------
(* Wrong definitions for MCSystem (see BadCodec).                              *)
EXTENDS MCSystem

\* a repeated request is taken for a new one
BadClassify(ss, ctr) == IF ctr = ss.rc \/ (ctr + 1) % 256 = ss.rc THEN "expected" ELSE "sequence"
\* only the first group object is told
BadReceivers(tt, aa) == LET rx == SelectSeq(tt.gobj, LAMBDA e : IsIn(e.asap, AsapsOf(tt, aa))) IN IF rx = <<>> THEN <<>> ELSE <<Head(rx)>>
\* what was received of a line before is forgotten
BadReceive(cl, oo) == LET r == LinesOf(<<>>, <<>>, oo) all == [i \in 1..Len(r.lines) |-> LineMsgs(cl.t, r.lines[i])]
                      IN [c |-> [cl EXCEPT !.buf = r.rest], msgs |-> SelectSeq(all, LAMBDA m : m # <<>>)]
\* the client keeps its message until the next one is written
BadWriteOf(cl, oo) == [ok |-> TRUE, c |-> [cl EXCEPT !.k = @ + 2]]
=============================================================================
