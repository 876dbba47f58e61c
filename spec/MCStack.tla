------------------------------ MODULE MCStack ------------------------------
(* Several sessions on two devices under any interleaving of reconfiguration,
   received frames and sent messages.  TLC's simulator walks it; the laws are
   stated over the history (the ghosts rel, held, typed, mine) and a finished
   walk is printed to be replayed into the real stack.                        *)
EXTENDS KnxStack, TLC, Json

CONSTANTS Addrs, Asaps, Dpts, Ias, Cap, Depth, Emit
VARIABLES w, n, hist, rel, held, typed, last
vars == <<w, n, hist, rel, held, typed, last>>
Devs == 1..2
Media == <<Usb, Ip, Ip, Tp, Ip, Usb>>
Of == <<1, 1, 1, 1, 2, 2>>
Sess0 == 1..Len(Media)
Pick(S) == RandomElement(S)
\* an element may be there several times
OneOf(s) == s[RandomElement(1..Len(s))]

(* ---- random calls ------------------------------------------------------------ *)
Some(k) == [i \in 1..OneOf(<<0, 1, 1, 1, 2, 2, 3, k>>) |-> Pick(Addrs)]
TableCall(k) ==
  CASE Pick(1..10) = 1 -> [op |-> "tadd", k |-> k, a |-> Pick(Addrs)]
    [] Pick(1..9) = 1 -> [op |-> "tremove", k |-> k, a |-> Pick(Addrs)]
    [] Pick(1..8) = 1 -> [op |-> "setia", k |-> k, a |-> Pick(Ias)]
    [] Pick(1..7) = 1 -> [op |-> "unsetdpt", k |-> k, p |-> Pick(Asaps)]
    [] Pick(1..6) < 4 -> [op |-> "setdpt", k |-> k, p |-> Pick(Asaps), d |-> Pick(Dpts)]
    [] Pick(1..4) = 1 -> [op |-> "disassoc", k |-> k, p |-> Pick(Asaps), as |-> Some(1)]
    [] OTHER -> [op |-> "assoc", k |-> k, p |-> Pick(Asaps), as |-> Some(1)]
Octets(m) == [i \in 1..m |-> Pick({0, 1, 127, 128, 255, 21})]
\* mostly something is associated with the address, and the octets are those of a value there
Listeds(k) == UNION {RangeOf(w.tabs[k].assoc[j].addrs) : j \in 1..Len(w.tabs[k].assoc)}
Dest(k) == IF Listeds(k) # {} /\ Pick(1..4) > 1 THEN Pick(Listeds(k)) ELSE Pick(Addrs)
GroupLink(k) == LET svc == OneOf(<<0, 64, 128, 128>>) IN
             <<Pick({188, 189, 176, 60}), 128 + Pick({96, 0, 112})>> \o Be16(Pick(Ias)) \o Be16(Dest(k))
             \o LET p == Octets(OneOf(<<0, 0, 1, 2, 2, 4>>)) IN <<1 + Len(p), 0, svc + (IF svc = 0 THEN 0 ELSE Pick({0, 1, 42}))>> \o p
PropLink == <<Pick({188, 189}), 96>> \o Be16(Pick(Ias)) \o Be16(Pick(Ias)) \o LET p == Octets(4 + Pick(0..3)) IN <<1 + Len(p), 3, Pick({213, 214, 215})>> \o p
OddLink(k) == LET l == IF Pick(1..2) = 1 THEN GroupLink(k) ELSE PropLink IN
           CASE Pick(1..4) = 1 -> [l EXCEPT ![8] = Pick(4..255)]
             [] Pick(1..3) = 1 -> Take(l, Pick(0..9))
             [] Pick(1..2) = 1 -> [l EXCEPT ![9] = Pick({10, 192, 63})]
             [] OTHER -> [l EXCEPT ![5] = 0, ![6] = 0]
AnyCemi(k) == LET l == IF Pick(1..12) = 1 THEN OddLink(k) ELSE IF Pick(1..5) = 1 THEN PropLink ELSE GroupLink(k)
               add == IF Pick(1..6) = 1 THEN Octets(Pick(1..4)) ELSE <<>>
           IN <<IF Pick(1..15) = 1 THEN Pick({16, 17, 43, 45, 241}) ELSE OneOf(<<41, 41, 46>>), Len(add)>> \o add \o l
InUsb(c) == <<1, OneOf(<<19, 19, 19, 35>>), 8 + Len(c), 0, 8, 0, Len(c), 1, 3, 0, 0>> \o c \o Zeros(Pick({0, 5}))
Around(k) == (k + OneOf(<<0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 1, 2, 254, 128>>)) % 256
CoreRes(svc, b) == <<6, 16, Hi(svc), Lo(svc), 0, 6 + Len(b)>> \o b
InIp(s, c) == <<6, 16, 4, 32, 0, 10 + Len(c), 4, OneOf(<<s.ch, s.ch, s.ch, (s.ch + 1) % 256>>), Around(s.rc), 0>> \o c
AnyIp(k, s) ==
  CASE Pick(1..4) > 1 -> InIp(s, AnyCemi(k))
    [] Pick(1..3) = 1 -> <<6, 16, 4, 33, 0, 10, 4, s.ch, Around(s.lc), OneOf(<<0, 0, 0, 1, 3>>)>>
    [] Pick(1..2) = 1 -> CoreRes(518, IF Pick(1..2) = 1 THEN <<Pick(1..255), 0>> \o Hpai(Octets(4), Pick({1, 3671})) \o <<4, 4>> \o Octets(2) ELSE <<Pick(0..255), Pick({34, 35, 36})>>)
    [] OTHER -> CoreRes(Pick({520, 522, 517, 1040}), <<Pick({s.ch, 0, 77}), OneOf(<<0, 0, 33>>)>>)
Frame(i) == IF Media[i] = Ip THEN AnyIp(Of[i], w.ss[i].s) ELSE InUsb(AnyCemi(Of[i]))
Val == <<Pick({0, 62}), Pick({0, 255}), Pick({0, 3, 128}), Pick({0, 1, 9, 254})>>
Message(i) ==
  CASE Media[i] = Ip /\ Pick(1..3) = 1 -> [k |-> "ack", ctr |-> Around(w.ss[i].s.rc), st |-> OneOf(<<0, 0, 0, 3>>)]
    [] Media[i] = Ip /\ Pick(1..8) = 1 -> [k |-> Pick({"connstate", "disconnect", "search"}), ip |-> <<10, 0, 0, 7>>, port |-> 5]
    [] Pick(1..6) = 1 -> [k |-> "propwrite", asap |-> 0, obj |-> Pick(0..3), pid |-> 9, n |-> 1, ix |-> Pick({1, 300}), data |-> Octets(Pick(0..3))]
    [] Pick(1..9) = 1 -> [k |-> Pick({"tconnect", "tdisconnect"})]
    [] Pick(1..3) = 1 -> [k |-> "groupread", asap |-> Pick(Asaps)]
    [] OTHER -> LET p == Pick(Asaps) IN [k |-> Pick({"groupwrite", "groupwriteind"}), asap |-> p, dpt |-> "", val |-> Val]
\* the message names the datapoint type of its group object, which is what a program does
Typing(i, x) == IF x.k \in {"groupwrite", "groupwriteind"}
                THEN [x EXCEPT !.dpt = LET t == w.tabs[Of[i]] IN IF HasDpt(t, x.asap) THEN DptOf(t, x.asap) ELSE "DPT_Switch"] ELSE x
Call == LET i == Pick(Sess0) z == Pick(1..10) IN
        \* a configuration first
        IF z <= 3 \/ (n < 12 /\ z <= 9) THEN TableCall(OneOf(<<1, 1, 2>>))
        ELSE IF z <= 7 THEN IF Media[i] = Tp THEN [op |-> "enc", s |-> i, x |-> Typing(i, Message(i))] ELSE [op |-> "dec", s |-> i, f |-> Frame(i)]
        ELSE [op |-> "enc", s |-> i, x |-> Typing(i, Message(i))]

(* ---- the walk ------------------------------------------------------------------ *)
Tab0(ia) == NewTables(ia, <<>>, Cap)
Init == /\ w = World(<<Tab0(9), Tab0(9)>>, [i \in Sess0 |-> [k |-> Of[i], m |-> Media[i], s |-> IF Media[i] = Ip THEN Sess(252 + i, 250 + i, i) ELSE Sess(0, 0, 0)]])
        /\ n = 0 /\ hist = <<>> /\ rel = [k \in Devs |-> {}] /\ held = [k \in Devs |-> {}] /\ typed = [k \in Devs |-> {}]
        /\ last = [c |-> [op |-> "none"], ok |-> TRUE, msgs |-> <<>>, o |-> <<>>]
Pairs(p, as) == {<<p, as[i]>> : i \in 1..Len(as)}
Ghosts(c, ok) ==
  IF c.op \notin TableOps \/ ~ok THEN UNCHANGED <<rel, held, typed>>
  ELSE LET k == c.k
           left == IF c.op = "disassoc" THEN rel[k] \ Pairs(c.p, c.as) ELSE rel[k]
           orphans == IF c.op = "disassoc" THEN {a \in RangeOf(c.as) : ~\E p \in Asaps : <<p, a>> \in left} ELSE {}
       IN /\ rel' = [rel EXCEPT ![k] = IF c.op = "assoc" THEN @ \cup Pairs(c.p, c.as) ELSE left]
          /\ held' = [held EXCEPT ![k] = CASE c.op = "tadd" -> @ \cup {c.a} [] c.op = "tremove" -> @ \ {c.a}
                                           [] c.op = "assoc" -> @ \cup RangeOf(c.as) [] OTHER -> @ \ orphans]
          /\ typed' = [typed EXCEPT ![k] = CASE c.op = "setdpt" -> {e \in @ : e[1] # c.p} \cup {<<c.p, c.d>>}
                                            [] c.op = "unsetdpt" -> {e \in @ : e[1] # c.p} [] OTHER -> @]
Next ==
  \/ /\ n < Depth
     /\ \E c \in {Call} :
          LET r == Step(w, c) IN
          /\ w' = r.w
          /\ last' = [c |-> c, ok |-> r.ok, msgs |-> r.msgs, o |-> r.o]
          /\ hist' = (IF Emit THEN Append(hist, c) ELSE hist)
          /\ Ghosts(c, r.ok)
     /\ n' = n + 1
  \/ /\ n = Depth
     /\ Emit => PrintT("@@" \o ToJson([ias |-> <<9, 9>>, max |-> Cap, of |-> Of, media |-> Media, calls |-> hist]))
     /\ n' = n + 1
     /\ UNCHANGED <<w, hist, rel, held, typed, last>>
Spec == Init /\ [][Next]_vars

(* ---- laws ------------------------------------------------------------------------ *)
Inv == \A k \in Devs : TablesInv(w.tabs[k]) /\ RangeOf(w.tabs[k].addrs) = held[k]
\* what is associated, typed and held decides who gets a telegram and where messages go (C01, C02, C16)
Lc == last'.c
T(k) == w.tabs[k]
Groups(ms) == SelectSeq(ms, LAMBDA m : m.k = "group")
LinkAt(c) == LET o == IF Media[c.s] = Ip THEN Drop(c.f, 10) ELSE Drop(c.f, 11) IN Drop(o, 2 + o[2])
Reach == [][(n' <= Depth /\ Lc.op = "dec" /\ Groups(last'.msgs) # <<>>) =>
             LET k == Of[Lc.s] a == LinkAt(Lc)[5] * 256 + LinkAt(Lc)[6] ms == Groups(last'.msgs) IN
             /\ {<<ms[i].asap, ms[i].dpt>> : i \in 1..Len(ms)} = {e \in typed[k] : <<e[1], a>> \in rel[k] /\ a \in held[k]}
             /\ Cardinality({ms[i].asap : i \in 1..Len(ms)}) = Len(ms)]_vars
Goes == [][(n' <= Depth /\ Lc.op = "enc" /\ Lc.x.k \in {"groupread", "groupwrite", "groupwriteind"}) =>
             LET k == Of[Lc.s] as == {e[2] : e \in {e \in rel[k] : e[1] = Lc.x.asap /\ e[2] \in held[k]}}
                 h == CASE Media[Lc.s] = Ip -> 10 [] Media[Lc.s] = Usb -> 11 [] OTHER -> 0
             IN IF last'.ok THEN last'.o[h + 7] * 256 + last'.o[h + 8] \in as
                ELSE as = {} \/ (Lc.x.k # "groupread" /\ ~\E e \in typed[k] : e[1] = Lc.x.asap)]_vars
\* C23: a call touches its own session or its own device only, and traffic touches no tables
Own == [][n' <= Depth =>
            /\ \A i \in Sess0 : w'.ss[i] # w.ss[i] => (Lc.op \in {"dec", "enc"} /\ Lc.s = i /\ Media[i] = Ip)
            /\ \A k \in Devs : w'.tabs[k] # w.tabs[k] => (Lc.op \in TableOps /\ Lc.k = k /\ last'.ok)]_vars
\* C16: the answer is the one a newly built device with the same configuration gives
Rebuilt(t) == LET names == [i \in 1..Len(t.assoc) |-> t.assoc[i].asap]
                  RECURSIVE build(_, _)
                  build(b, i) == IF i > Len(names) THEN b ELSE build(Associate(b, names[i], AddressesOf(t, names[i])).t, i + 1)
              IN SetDpts(build(NewTables(t.ia, t.addrs, t.max), 1), t.gobj)
AsNew == [][(n' <= Depth /\ Lc.op \in {"dec", "enc"}) =>
              LET r == Step([w EXCEPT !.tabs[Of[Lc.s]] = Rebuilt(@)], Lc) IN
              r.ok = last'.ok /\ r.msgs = last'.msgs /\ r.o = last'.o /\ r.w.ss = w'.ss]_vars
\* C18 - C21 per session
Counters == [][\A i \in Sess0 :
                 /\ w'.ss[i].s.rc # w.ss[i].s.rc => (Lc.op = "enc" /\ Lc.x.k = "ack" /\ Lc.x.ctr = w.ss[i].s.rc /\ w'.ss[i].s.rc = Inc(w.ss[i].s.rc))
                 /\ w'.ss[i].s.lc # w.ss[i].s.lc => (Lc.op = "dec" /\ SubSeq(Lc.f, 3, 4) = <<4, 33>> /\ Lc.f[9] = w.ss[i].s.lc /\ Lc.f[10] = 0)
                 /\ w'.ss[i].s.ch # w.ss[i].s.ch => (Lc.op = "dec" /\ Lc.f[3] = 2 /\ Lc.f[4] \in {6, 10} /\ Lc.f[8] = 0)]_vars
=============================================================================
