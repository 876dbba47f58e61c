------------------------------- MODULE BadHeld -------------------------------
(* Wrong definitions for MCHeld (see BadCodec).                               *)
EXTENDS MCHeld

\* things are kept for the next one of their kind
KeptCellOf(i, kind, part) == <<0, part>>
\* the parts of a thing are one
SharedCellOf(i, kind, part) == <<i, "value">>
\* lookups show the tables' own list
OwnCellOf(i, kind, part) == IF kind = "lookup" THEN Tables ELSE <<i, part>>
\* a device goes on with the lists it was built from: they are the first device's too
ListCellOf(i, kind, part) == IF kind = "device" THEN Tables ELSE <<i, part>>
==============================================================================
