------------------------------ MODULE KnxStack ------------------------------
(* The state machine of the stack.  A world w holds

     w.tabs   the configurations (KnxTables), one per device
     w.ss     the sessions [k, m, s]: on configuration k, medium m, with the
              counters and channel s = [rc, lc, ch] of KnxCodec

   Step(w, c) is the effect of one call c of the public interface:
     [ok, msgs, o, w, lenient]  (ok = FALSE: the call must fail)             *)
EXTENDS KnxCodec

World(tabs, ss) == [tabs |-> tabs, ss |-> ss]
Session(k, m) == [k |-> k, m |-> m, s |-> Sess(0, 0, 0)]

SRes(ok, msgs, o, w, l) == [ok |-> ok, msgs |-> msgs, o |-> o, w |-> w, lenient |-> l]

RECURSIVE AssociateAll(_, _)
AssociateAll(t, as) == IF as = <<>> THEN t ELSE AssociateAll(Associate(t, as[1].asap, <<as[1].addr>>).t, Tail(as))
RECURSIVE SetDpts(_, _)
SetDpts(t, ds) == IF ds = <<>> THEN t ELSE SetDpts(SetDpt(t, ds[1].asap, ds[1].dpt).t, Tail(ds))

TableOps == {"tadd", "tremove", "setia", "assoc", "disassoc", "setdpt", "unsetdpt"}
TableOp(t, c) ==
  CASE c.op = "tadd" -> TableAdd(t, c.a)
    [] c.op = "tremove" -> TableRemove(t, c.a)
    [] c.op = "setia" -> SetIa(t, c.a)
    [] c.op = "assoc" -> Associate(t, c.p, c.as)
    [] c.op = "disassoc" -> Disassociate(t, c.p, c.as)
    [] c.op = "setdpt" -> SetDpt(t, c.p, c.d)
    [] c.op = "unsetdpt" -> UnsetDpt(t, c.p)

Step(w, c) ==
  CASE c.op = "newstack" ->
         SRes(TRUE, <<>>, <<>>, [w EXCEPT !.tabs = Append(@,
              SetDpts(AssociateAll(NewTables(c.ia, c.addrs, c.max), c.assoc), c.gobj))], FALSE)
    [] c.op = "newsess" -> SRes(TRUE, <<>>, <<>>, [w EXCEPT !.ss = Append(@, Session(c.k, c.m))], FALSE)
    [] c.op = "setcnt" -> SRes(TRUE, <<>>, <<>>, [w EXCEPT !.ss[c.s].s = Sess(c.rc % 256, c.lc % 256, c.ch)], FALSE)
    [] c.op \in TableOps -> LET r == TableOp(w.tabs[c.k], c)
                            IN SRes(r.ok, <<>>, <<>>, [w EXCEPT !.tabs[c.k] = r.t], FALSE)
    [] c.op = "dec" -> LET ss == w.ss[c.s]
                           r == Decode(ss.m, w.tabs[ss.k], ss.s, c.f)
                       IN SRes(TRUE, r.msgs, <<>>, [w EXCEPT !.ss[c.s].s = r.s], r.lenient)
    [] c.op = "enc" -> LET ss == w.ss[c.s]
                           r == Encode(ss.m, w.tabs[ss.k], ss.s, c.x)
                       IN SRes(r.ok, <<>>, r.o, [w EXCEPT !.ss[c.s].s = r.s], FALSE)
=============================================================================
