---------------------------- MODULE KnxCounters ----------------------------
(* The counters of a tunnelling connection.  s: [rc, lc, ch], rc the counter
   expected from the gateway, lc the counter of the request being sent.
   (With type annotations, so that Apalache reads it as well as TLC.)          *)
EXTENDS Integers

\* @typeAlias: sess = {rc: Int, lc: Int, ch: Int};
KnxCountersAliases == TRUE

\* @type: Int => Int;
Inc(n) == (n + 1) % 256
\* what a request with this counter is
\* @type: ($sess, Int) => Str;
Classify(s, ctr) == IF ctr = s.rc THEN "expected" ELSE IF Inc(ctr) = s.rc THEN "repeated" ELSE "sequence"
\* after acknowledging a request with this counter
\* @type: ($sess, Int) => $sess;
AckSent(s, ctr) == IF ctr = s.rc THEN [s EXCEPT !.rc = Inc(s.rc)] ELSE s
\* after an acknowledgement of this counter
\* @type: ($sess, Int, Int) => $sess;
AckReceived(s, ctr, st) == IF ctr = s.lc /\ st = 0 THEN [s EXCEPT !.lc = Inc(s.lc)] ELSE s
=============================================================================
