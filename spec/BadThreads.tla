----------------------------- MODULE BadThreads -----------------------------
(* Wrong definitions for MCThreads (see BadCodec).                             *)
EXTENDS MCThreads

\* all calls keep what they are about in the same cell
BadCell(c) == 0
\* the associations are ordered where everyone looks them up
BadShownAs(was, own, all) == own
=============================================================================
