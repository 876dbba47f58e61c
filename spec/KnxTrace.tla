------------------------------ MODULE KnxTrace ------------------------------
(* Trace validation: every line of the file named by TRACE is a recorded
   history [h, ev] of the real stack.  Each history is one behaviour: a step
   consumes one event, computes Step, and collects what does not conform.  At
   its end a history prints its verdict.                                     *)
EXTENDS KnxJudge, Json, IOUtils, TLC

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, w, bad
vars == <<h, i, w, bad>>

Init == h \in 1..Len(Hist) /\ i = 0 /\ w = World(<<>>, <<>>) /\ bad = {}

Judge(e, r) ==
  CASE e.op \in {"newsess", "setcnt"} -> {}
    [] e.op = "newstack" -> SnapTags(r.w.tabs[Len(r.w.tabs)], e.snap)
    [] e.op \in TableOps -> TableTags(w.tabs[e.k], [ok |-> r.ok, t |-> r.w.tabs[e.k]], e)
    [] e.op = "dec" -> LET ss == w.ss[e.s] t == w.tabs[ss.k] IN
                       DecodeTags(ss, t, e.f, r, e)
                       \cup SessTags(IF e.ok \/ r.msgs # <<>> THEN r.w ELSE w, e, Stage(ss.m, ss.s, e.f) = "foreign" /\ r.msgs = <<>>)
                       \cup FreshTags(e)
    [] e.op = "enc" -> EncodeTags(w.ss[e.s].m, r, e) \cup SessTags(r.w, e, FALSE) \cup FreshTags(e)
\* the world as logged: judging goes on from what really happened
Resync(e, r) ==
  CASE e.op = "newstack" -> [r.w EXCEPT !.tabs[Len(r.w.tabs)] = FromSnap(@, e.snap)]
    [] e.op \in TableOps /\ Has(e, "snap") -> [r.w EXCEPT !.tabs[e.k] = FromSnap(@, e.snap)]
    [] e.op \in {"dec", "enc"} -> [r.w EXCEPT !.ss = [j \in 1..Len(@) |-> [@[j] EXCEPT !.s = e.ssa[j]]]]
    [] OTHER -> r.w
Relations == {"same", "trip", "text", "mtext", "rtext", "link", "names", "ask", "counters", "stext", "equal"}

Next ==
  LET evs == Hist[h].ev IN
  \/ /\ i < Len(evs)
     /\ LET e == evs[i + 1] IN
        IF e.op = "crash" \/ "hang" \in DOMAIN e
        THEN /\ bad' = bad \cup {<<i + 1, "*", IF e.op = "crash" THEN "failed outside of a call which may fail" ELSE "does not return">>}
             /\ w' = IF e.op = "crash" THEN w ELSE Resync(e, Step(w, e))
        ELSE IF e.op \in Relations
        THEN /\ bad' = bad \cup {<<i + 1>> \o v : v \in OtherTags(w, evs, e)}
             /\ UNCHANGED w
        ELSE LET r == Step(w, e)
                 v == Judge(e, r)
             IN /\ bad' = bad \cup {<<i + 1>> \o x : x \in v}
                /\ w' = IF v = {} THEN r.w ELSE Resync(e, r)
     /\ i' = i + 1
     /\ UNCHANGED h
  \/ /\ i = Len(evs)
     /\ PrintT("@@" \o ToJson([h |-> h, n |-> i, bad |-> bad]))
     /\ i' = i + 1
     /\ UNCHANGED <<h, w, bad>>
Spec == Init /\ [][Next]_vars
=============================================================================
