---------------------------- MODULE ProofTunnel ----------------------------
(* The tunnelling connection of MCTunnel without bounds on the number of telegrams
   and for every first counter: an inductive invariant, checked by Apalache
   (Init => Inv, Inv /\ Next => Inv', Inv => the laws).  The client follows
   KnxCounters, which the code is bound to.  Datagrams are lost and repeated at
   any place and do not overtake each other; at most Room of them are under way
   in one direction.  Telegrams are numbered from 1; n and m below are those
   numbers, which are not bounded, and ctr the counters, which wrap.             *)
EXTENDS KnxCounters, Sequences, Apalache

\* @typeAlias: dgram = {req: Bool, ctr: Int, n: Int};
ProofAliases == TRUE

CONSTANTS
  \* @type: Int;
  Start,
  \* @type: Int;
  Room

VARIABLES
  \* the client's session
  \* @type: $sess;
  s,
  \* telegrams delivered at the client
  \* @type: Int;
  got,
  \* the telegram the client is sending
  \* @type: Int;
  k,
  \* the telegram the gateway is sending, its counter, the counter it expects
  \* @type: Int;
  gn,
  \* @type: Int;
  gc,
  \* @type: Int;
  ge,
  \* telegrams delivered at the gateway
  \* @type: Int;
  gotG,
  \* @type: Seq($dgram);
  down,
  \* @type: Seq($dgram);
  up,
  \* everything delivered so far was the telegram after the one before
  \* @type: Bool;
  good
vars == <<s, got, k, gn, gc, ge, gotG, down, up, good>>

ConstInit == Start \in 0..255 /\ Room = 3

\* @type: (Int, Int) => $dgram;
Req(ctr, n) == [req |-> TRUE, ctr |-> ctr, n |-> n]
\* n: the telegram it acknowledges, which nobody sees
\* @type: (Int, Int) => $dgram;
Ack(ctr, n) == [req |-> FALSE, ctr |-> ctr, n |-> n]
\* @type: (Seq($dgram), $dgram) => Seq($dgram);
Put(q, d) == IF Len(q) < Room THEN Append(q, d) ELSE Append(Tail(q), d)

Init == /\ s = [rc |-> Start, lc |-> Start, ch |-> 1] /\ got = 0 /\ k = 1 /\ gn = 1 /\ gc = Start /\ ge = Start
        /\ gotG = 0 /\ down = <<>> /\ up = <<>> /\ good = TRUE

GwSend == down' = Put(down, Req(gc, gn)) /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, up, good>>
CliSend == up' = Put(up, Req(s.lc, k)) /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, down, good>>
\* @type: (Seq($dgram), Int) => Seq($dgram);
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* @type: (Seq($dgram), Int) => Seq($dgram);
Doubled(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i, Len(q))
Lose == /\ \/ (\E i \in 1..3 : i <= Len(down) /\ down' = Without(down, i)) /\ UNCHANGED up
           \/ (\E i \in 1..3 : i <= Len(up) /\ up' = Without(up, i)) /\ UNCHANGED down
        /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, good>>
Redeliver == /\ \/ Len(down) < Room /\ (\E i \in 1..3 : i <= Len(down) /\ down' = Doubled(down, i)) /\ UNCHANGED up
                \/ Len(up) < Room /\ (\E i \in 1..3 : i <= Len(up) /\ up' = Doubled(up, i)) /\ UNCHANGED down
             /\ UNCHANGED <<s, got, k, gn, gc, ge, gotG, good>>
CliReq == /\ Len(down) > 0 /\ Head(down).req
          /\ LET d == Head(down)
                 c == Classify(s, d.ctr)
             IN /\ down' = Tail(down)
                /\ got' = IF c = "expected" THEN got + 1 ELSE got
                /\ good' = (good /\ (c = "expected" => d.n = got + 1))
                /\ s' = IF c = "sequence" THEN s ELSE AckSent(s, d.ctr)
                /\ up' = IF c = "sequence" THEN up ELSE Put(up, Ack(d.ctr, d.n))
          /\ UNCHANGED <<k, gn, gc, ge, gotG>>
CliAck == /\ Len(down) > 0 /\ ~Head(down).req
          /\ LET d == Head(down)
                 s2 == AckReceived(s, d.ctr, 0)
             IN down' = Tail(down) /\ s' = s2 /\ k' = IF s2.lc # s.lc THEN k + 1 ELSE k
          /\ UNCHANGED <<got, gn, gc, ge, gotG, up, good>>
GwAck == /\ Len(up) > 0 /\ ~Head(up).req
         /\ up' = Tail(up)
         /\ IF Head(up).ctr = gc THEN gn' = gn + 1 /\ gc' = Inc(gc) ELSE UNCHANGED <<gn, gc>>
         /\ UNCHANGED <<s, got, k, ge, gotG, down, good>>
GwReq == /\ Len(up) > 0 /\ Head(up).req
         /\ LET d == Head(up) IN
            /\ up' = Tail(up)
            /\ IF d.ctr = ge THEN gotG' = gotG + 1 /\ ge' = Inc(ge) /\ down' = Put(down, Ack(d.ctr, d.n)) /\ good' = (good /\ d.n = gotG + 1)
               ELSE IF Inc(d.ctr) = ge THEN down' = Put(down, Ack(d.ctr, d.n)) /\ UNCHANGED <<gotG, ge, good>>
               ELSE UNCHANGED <<gotG, ge, down, good>>
         /\ UNCHANGED <<s, got, k, gn, gc>>
Next == GwSend \/ CliSend \/ Lose \/ Redeliver \/ CliReq \/ CliAck \/ GwAck \/ GwReq

\* the counter of the n-th telegram
Ctr(n) == (Start + n - 1) % 256
\* one direction: the sender sends telegram n, g are delivered, its requests are in q, the acknowledgements in r
\* @type: (Int, Int, Seq($dgram), Seq($dgram)) => Bool;
Way(n, g, q, r) ==
  /\ n >= 1 /\ n - 1 <= g /\ g <= n
  /\ \A i \in 1..3 : (i <= Len(q) /\ q[i].req) =>
       /\ q[i].n >= 1 /\ n - 1 <= q[i].n /\ q[i].n <= n /\ q[i].ctr = Ctr(q[i].n) /\ g <= q[i].n
       /\ \A j \in 1..3 : (j > i /\ j <= Len(q) /\ q[j].req) => q[i].n <= q[j].n
  /\ \A i \in 1..3 : (i <= Len(r) /\ ~r[i].req) =>
       /\ r[i].n >= 1 /\ n - 1 <= r[i].n /\ r[i].n <= g /\ r[i].ctr = Ctr(r[i].n)
       /\ \A j \in 1..3 : (j > i /\ j <= Len(r) /\ ~r[j].req) => r[i].n <= r[j].n
Counters == s.rc = Ctr(got + 1) /\ ge = Ctr(gotG + 1) /\ s.lc = Ctr(k) /\ gc = Ctr(gn)
Inv == /\ Len(down) <= Room /\ Len(up) <= Room
       /\ Counters /\ good
       /\ Way(gn, got, down, up) /\ Way(k, gotG, up, down)
\* any state satisfying the invariant
IndInit == /\ s = Gen(1) /\ got = Gen(1) /\ k = Gen(1) /\ gn = Gen(1) /\ gc = Gen(1) /\ ge = Gen(1) /\ gotG = Gen(1) /\ good = Gen(1)
           /\ down = Gen(3) /\ up = Gen(3) /\ Inv

\* C18: delivered exactly once and in order; C20: the other way; nobody believes something delivered which is not
Laws == good /\ gn - 1 <= got /\ got <= gn /\ k - 1 <= gotG /\ gotG <= k /\ s.rc \in 0..255 /\ s.lc \in 0..255
=============================================================================
