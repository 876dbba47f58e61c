------------------------------ MODULE BadLines ------------------------------
(* Wrong definitions for MCLines (see BadCodec).                               *)
EXTENDS MCLines

\* what was received of a line before is forgotten
BadReceive(cl, oo) == LET r == LinesOf(<<>>, <<>>, oo) all == [i \in 1..Len(r.lines) |-> LineMsgs(cl.t, r.lines[i])]
                     IN [c |-> [cl EXCEPT !.buf = r.rest], msgs |-> SelectSeq(all, LAMBDA m : m # <<>>)]
\* what is received is taken for a line
BadPieces(cl, oo) == LET ms == LineMsgs(cl.t, SelectSeq(cl.buf \o oo, LAMBDA b : b # 10))
                    IN [c |-> [cl EXCEPT !.buf = <<>>], msgs |-> IF ms = <<>> THEN <<>> ELSE <<ms>>]
\* after a line which is not understood the rest is thrown away
BadRest(cl, oo) == LET r == LinesOf(<<>>, cl.buf, oo)
                      bad == {i \in 1..Len(r.lines) : LineMsgs(cl.t, r.lines[i]) = <<>>}
                      upto == IF bad = {} THEN Len(r.lines) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
                  IN [c |-> [cl EXCEPT !.buf = IF bad = {} THEN r.rest ELSE <<>>], msgs |-> [i \in 1..upto |-> LineMsgs(cl.t, r.lines[i])]]
\* capitals only
BadHexDigit(b) == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] OTHER -> -1
\* writing forgets the line being read
BadWrite(cl, oo) == LET r == LinesOf(<<>>, cl.out, oo) IN [ok |-> TRUE, c |-> [cl EXCEPT !.out = r.rest, !.k = @ + Len(r.lines), !.buf = <<>>]]
=============================================================================
