---------------------------- MODULE ValueTrace ----------------------------
(* Recorded conversions of the real code judged against KnxValues.
   A history follows one datapoint (o) and one bus message (m); events named in
   the plural hold rows of independent conversions.                           *)
EXTENDS KnxValues, Json, IOUtils, TLC, FiniteSets

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, i, o, m, bad
vars == <<h, i, o, m, bad>>

Vi(p, what) == {<<p, what>>}
If(b, s) == IF b THEN s ELSE {}
Some(rows, P(_)) == \E j \in 1..Len(rows) : P(rows[j])

(* ---- fields ---------------------------------------------------------------- *)
\* fs: what the public fields read, [f, n, nm]; n = -1 where reading was refused
ReadOk(f, raw, x) ==
  LET v == GetField(raw, f)
  IN IF f.enum = <<>> THEN x.n = v
     ELSE IF NamesOf(f, v) = {} THEN x.n \in {-1, v}
     ELSE x.n = v /\ x.nm \in NamesOf(f, v)
FieldTags(d, raw, fs) ==
  If(\E f \in FieldsOf(d) : ~\E j \in 1..Len(fs) : fs[j].f = f.name /\ ReadOk(f, raw, fs[j]), Vi("C29", "a field reads other bits"))
\* the raw value after setting field f of raw to what event e says; refused = it must be
SetRefused(f, e) == IF f.enum = <<>> THEN e.nm # "" ELSE ~Named(f, e.nm)
SetResult(f, raw, e) == SetField(raw, f, IF f.enum = <<>> THEN e.n % Pow2(f.n) ELSE ValueOf(f, e.nm))
Width4(d, raw) == [j \in 1..4 |-> IF j > 4 - DptType[d].size THEN raw[j] ELSE 0]
\* a value which does not fit the field: only the other fields are judged
Fits(f, e) == f.enum # <<>> \/ (e.n >= 0 /\ e.n < Pow2(f.n))
SetTags(d, raw, e) ==
  LET f == FieldOf(d, e.f)
  IN IF SetRefused(f, e)
     THEN If(e.ok, Vi("C29", "an undefined name is accepted")) \cup If(e.raw # raw, Vi("C29", "a refused assignment changed the value"))
     ELSE IF ~Fits(f, e)
     THEN If(SetField(e.raw, f, 0) # SetField(raw, f, 0), Vi("C29", "an assignment changed other bits"))
     ELSE If(~e.ok, Vi("C29", "an assignment is refused"))
          \cup If(e.raw # SetResult(f, raw, e), Vi("C29", IF SetField(e.raw, f, 0) # SetField(raw, f, 0) THEN "an assignment changed other bits" ELSE "stored"))
DescOk(d, raw, desc) ==
  LET ty == DptType[d] IN
  CASE ty.kind = "fields" -> \A f \in FieldsOf(d) : \E j \in 1..Len(desc) :
                                LET x == desc[j] v == GetField(raw, f) IN
                                x.f = f.name /\ (IF f.enum # <<>> /\ NamesOf(f, v) # {} THEN x.nm \in NamesOf(f, v) ELSE x.nm = "" /\ x.n = v)
    [] ty.kind = "raw" -> \E j \in 1..Len(desc) : desc[j].f = "value" /\ desc[j].n = raw[4]
    [] ty.kind = "f16" -> \E j \in 1..Len(desc) : desc[j].f = "decoded_value" /\ desc[j].exact /\ desc[j].n = F16Dec(Word(raw[3], raw[4]))
    [] ty.kind = "f32" -> \E j \in 1..Len(desc) : desc[j].f = "decoded_value" /\ desc[j].v = F32Dec([h |-> Word(raw[1], raw[2]), l |-> Word(raw[3], raw[4])])
\* how many values a description holds
Parts(d) == IF DptType[d].kind = "fields" THEN Cardinality(FieldsOf(d)) ELSE 1
\* a field whose value has no name cannot be set by name
Nameless(d, raw) == \E f \in FieldsOf(d) : f.enum # <<>> /\ NamesOf(f, GetField(raw, f)) = {}
SameFields(d, a, b) ==
  LET ty == DptType[d] IN
  CASE ty.kind = "fields" -> \A f \in FieldsOf(d) : GetField(a, f) = GetField(b, f)
    [] ty.kind = "f16" -> F16Dec(Word(a[3], a[4])) = F16Dec(Word(b[3], b[4]))
    [] OTHER -> Width4(d, a) = Width4(d, b)
RECURSIVE Assign(_, _, _)
Assign(d, raw, items) == IF items = <<>> THEN raw ELSE Assign(d, SetResult(FieldOf(d, Head(items).f), raw, Head(items)), Tail(items))
MakeRefused(d, items) == \E j \in 1..Len(items) : ~HasField(d, items[j].f) \/ SetRefused(FieldOf(d, items[j].f), items[j])

(* ---- floats ------------------------------------------------------------------ *)
R32(a, b) == [h |-> a, l |-> b]
F16Row(r) == LET x == F16Enc(r[1] = 1, r[2]) IN \* neg, thousandths, ok, before, after
  IF x.in THEN r[3] = 1 /\ r[5] = x.raw
  ELSE \/ r[3] = 0 /\ r[5] = r[4]
       \/ x.may /\ r[3] = 1 /\ r[5] = x.raw

(* ---- what is followed -------------------------------------------------------- *)
NewO(e) == CASE e.op = "new" -> [d |-> e.d, raw |-> e.raw] [] e.op \in {"raw", "set"} -> [o EXCEPT !.raw = e.raw] [] OTHER -> o
NewM(e) == CASE e.op = "text" -> e.o [] e.op = "number" -> (IF e.by = "value" THEN e.o ELSE NumFrom(e.kind, e.o))
             [] e.op = "numset" -> (IF e.j = 0 THEN e.o ELSE NumWith(e.kind, m, e.j, e.v)) [] e.op = "take" -> IF e.ok /\ e.go THEN e.rest ELSE e.orig
             [] e.op = "edit" -> (IF e.ok THEN e.o ELSE m) [] OTHER -> m

(* ---- one event ----------------------------------------------------------------- *)
Tags(e) ==
  CASE e.op = "addrs" -> \* rows: expected number by the notation e.via, then what the address shows; last: found in a dict and a set
         If(Some(e.rows, LAMBDA r : LET n == CASE e.via = "free" -> r[1] [] e.via = "two" -> FromTwo(r[1], r[2]) [] OTHER -> FromThree(r[1], r[2], r[3])
                                    IN ~(r[4] = n /\ <<r[5], r[6]>> = Two(n) /\ <<r[7], r[8], r[9]>> = Three(n))), Vi("C17", "notations"))
         \cup If(Some(e.rows, LAMBDA r : <<r[11]>> # <<r[4]>> \/ <<r[12], r[13]>> # Two(r[4]) \/ <<r[14], r[15], r[16]>> # Three(r[4])), Vi("C17", "text"))
         \cup If(Some(e.rows, LAMBDA r : r[10] # 1), Vi("C17", "not equal, not of equal hash or not found under another notation"))
    [] e.op = "pairs" -> \* a, b, ==, !=, same hash
         If(Some(e.rows, LAMBDA r : r[3] # (IF r[1] = r[2] THEN 1 ELSE 0) \/ r[4] = r[3]), Vi("C17", "equality"))
         \cup If(Some(e.rows, LAMBDA r : r[1] = r[2] /\ r[5] = 0), Vi("C17", "hash"))
    [] e.op = "find" -> \* lookups in tables: address, what the address table and the association table say
         If(Some(e.rows, LAMBDA r : r[2] # IndexOf(r[1], e.addrs)), Vi("C17", "lookup in the address table"))
         \cup If(Some(e.rows, LAMBDA r : r[3] # IndexOf(r[1], e.addrs)), Vi("C17", "lookup in the association table"))
    [] e.op = "new" -> If(e.raw # Zeros(4), Vi("C29", "a new datapoint is not zero"))
    [] e.op = "raw" -> If(e.raw # e.v, Vi("C29", "raw value")) \cup FieldTags(e.d, e.raw, e.fs)
    [] e.op = "set" -> SetTags(o.d, o.raw, e) \cup FieldTags(o.d, e.raw, e.fs)
    [] e.op = "sets" -> \* rows: raw before, raw after, the field read afterwards (-1: refused)
         LET f == FieldOf(e.d, e.f) v == IF f.enum = <<>> THEN e.n ELSE ValueOf(f, e.nm)
         IN If(~e.ok, Vi("C29", "an assignment is refused"))
            \cup If(Some(e.rows, LAMBDA r : Raw4(r[2]) # SetField(Raw4(r[1]), f, v)), Vi("C29", "stored"))
            \cup If(Some(e.rows, LAMBDA r : r[3] # v), Vi("C29", "read back"))
    [] e.op = "desc" -> If(~e.ok \/ e.name # e.d, Vi("C30", "described type"))
                        \cup If(e.ok /\ ~DescOk(e.d, e.raw, e.desc), Vi("C30", "description"))
                        \cup If(e.raw # e.before, Vi("C30", "describing changed the datapoint"))
    [] e.op = "dtext" -> If(~e.ok \/ e.name # e.d, Vi("C39", "text of a value"))
                        \cup If(e.ok /\ e.name = e.d /\ (~DescOk(e.d, e.raw, e.desc) \/ Len(e.desc) # Parts(e.d)), Vi("C39", "values a text states"))
                        \cup If(e.raw # e.before, Vi("C30", "the text changed the datapoint"))
    [] e.op = "rebuild" -> IF Nameless(e.d, e.before) THEN {}
                           ELSE If(~e.ok, Vi("C30", "not built from its description"))
                                \cup If(e.ok /\ e.name # e.d, Vi("C30", "type built"))
                                \cup If(e.ok /\ e.name = e.d /\ ~SameFields(e.d, e.before, e.raw), Vi("C30", "fields built"))
    [] e.op = "make" -> IF MakeRefused(e.d, e.items) THEN If(e.ok, Vi("C29", "an undefined name is accepted by the factory") \cup Vi("C30", "an undefined name is accepted by the factory"))
                        ELSE If(~e.ok \/ e.name # e.d, Vi("C30", "not built"))
                             \cup If(e.ok /\ e.name = e.d /\ e.raw # Assign(e.d, Zeros(4), e.items), Vi("C30", "built with other fields"))
    [] e.op = "rebuilds" -> If(Some(e.rows, LAMBDA r : r[2] # F16Dec(r[1]) \/ r[3] = -1 \/ F16Dec(r[3]) # F16Dec(r[1])), Vi("C30", "16 bit float built from its description"))
    [] e.op = "decs" -> If(Some(e.rows, LAMBDA r : r[2] # F16Dec(r[1]) \/ r[3] # 1), Vi("C31", "decoded"))
    [] e.op = "fencs" -> If(Some(e.rows, LAMBDA r : ~F16Row(r)), Vi("C31", "encoded"))
    [] e.op = "huge" -> If(Some(e.rows, LAMBDA r : r[1] = 1 \/ r[3] # r[2]), Vi("C31", "beyond the range"))
    [] e.op = "decs32" -> If(Some(e.rows, LAMBDA r : Num(r[3], r[4], r[5], r[6]) # F32Dec(R32(r[1], r[2]))), Vi("C32", "decoded"))
    [] e.op = "fencs32" -> If(Some(e.rows, LAMBDA r : LET v == Num(r[1], r[2], r[3], r[4]) IN
                                F32Fits(v) /\ (r[5] # 1 \/ R32(r[6], r[7]) # F32Enc(v))), Vi("C32", "encoded"))
    [] e.op = "wire32" -> If(Some(e.rows, LAMBDA r : LET v == Num(r[1], r[2], r[3], r[4]) IN
                                F32Fits(v) /\ R32(Word(r[5], r[6]), Word(r[7], r[8])) # F32Enc(v)), Vi("C32", "octets on the bus") \cup Vi("C03", "octets on the bus"))
    [] e.op = "wires" -> \* rows: the value's halves, the halves received, the octets sent
         If(Some(e.rows, LAMBDA r : r[1] # r[3] \/ r[2] # r[4]), Vi("C03", "received"))
         \cup If(Some(e.rows, LAMBDA r : SubSeq(r, 5, Len(r)) # Significant(e.d, <<Hi(r[1]), Lo(r[1]), Hi(r[2]), Lo(r[2])>>)), Vi("C03", "octets on the bus"))
    [] e.op = "unwire32" -> If(Some(e.rows, LAMBDA r : Num(r[5], r[6], r[7], r[8]) # F32Dec(R32(Word(r[1], r[2]), Word(r[3], r[4])))), Vi("C32", "number from the bus") \cup Vi("C03", "number from the bus"))
    [] e.op = "wire16" -> If(Some(e.rows, LAMBDA r : LET x == F16Enc(r[1] = 1, r[2]) IN x.in /\ Word(r[3], r[4]) # x.raw), Vi("C31", "octets on the bus") \cup Vi("C03", "octets on the bus"))
    [] e.op = "text" -> If(~e.ok \/ e.o # Parse(e.t), Vi("C33", "parsed")) \cup If(e.ok /\ e.back # Print(e.o), Vi("C33", "printed"))
    [] e.op = "edit" -> IF ~e.ok THEN Vi("C33", "a message cannot be changed")
                        ELSE If(e.o # MsgEdit(m, e.how, e.j, e.v), Vi("C33", "a message changed")) \cup If(e.back # Print(e.o), Vi("C33", "printed after a change"))
    [] e.op = "printed" -> If(e.back # Print(e.o), Vi("C33", "printed"))
    [] e.op = "take" -> LET n == TakeSize(e.kind) IN
         If(e.orig # m, Vi("C33", "the original message changed"))
         \cup (IF Len(m) < n THEN If(e.ok, Vi("C33", "taken from too few octets"))
               ELSE If(~e.ok, Vi("C33", "refused"))
                    \cup If(e.ok /\ e.kind \in Blocks /\ e.head # Take(Says(e.kind, m), e.says), Vi("C33", "what a block says"))
                    \cup If(e.ok /\ e.kind \in Numbers /\ (e.head # Take(m, n) \/ e.octets # Take(m, n)), Vi("C33", "taken"))
                    \cup If(e.ok /\ e.kind \in Numbers /\ e.text # HexText(Take(m, n)), Vi("C33", "text of a number"))
                    \cup If(e.ok /\ e.rest # Drop(m, n), Vi("C33", "rest")))
    [] e.op \in {"number", "numset", "numhand"} ->
         LET now == NewM(e) IN
         If(~e.ok, Vi("C44", "refused"))
         \cup (IF ~e.ok THEN {} ELSE If(e.value # now, Vi("C44", "value")) \cup If(e.parts # NumParts(e.kind, now), Vi("C44", "parts"))
                                  \cup If(\E j \in 1..Len(e.lists) : e.lists[j] # now, Vi("C44", "octets")) \cup If(e.text # HexText(now), Vi("C44", "text")))
    [] e.op = "numspoil" -> If(e.value # m \/ e.parts # NumParts(e.kind, m), Vi("C44", "changes with the octets it gave out"))
Init == h \in 1..Len(Hist) /\ i = 0 /\ o = [d |-> "", raw |-> <<>>] /\ m = <<>> /\ bad = {}
Next ==
  LET evs == Hist[h].ev IN
  \/ /\ i < Len(evs)
     /\ LET e == evs[i + 1] IN
        IF e.op = "crash" \/ "hang" \in DOMAIN e
        THEN bad' = bad \cup {<<i + 1, "*", "failed or did not return">>} /\ UNCHANGED <<o, m>>
        ELSE bad' = bad \cup {<<i + 1>> \o v : v \in Tags(e)} /\ o' = NewO(e) /\ m' = NewM(e)
     /\ i' = i + 1
     /\ UNCHANGED h
  \/ /\ i = Len(evs)
     /\ PrintT("@@" \o ToJson([h |-> h, n |-> i, bad |-> bad]))
     /\ i' = i + 1
     /\ UNCHANGED <<h, o, m, bad>>
Spec == Init /\ [][Next]_vars
=============================================================================
