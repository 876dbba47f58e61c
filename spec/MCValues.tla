------------------------------ MODULE MCValues ------------------------------
(* Laws of the conversions of KnxValues, over all 16 bit numbers x.           *)
EXTENDS KnxValues, FiniteSets
CONSTANT Step \* every Step-th number
VARIABLE x
Init == x \in {b * 256 : b \in 0..255}
Next == x % 256 = 0 /\ x' \in {x + j : j \in {j \in 1..255 : j % Step = 0}}
Spec == Init /\ [][Next]_x

Address == /\ FromTwo(Two(x)[1], Two(x)[2]) = x
           /\ FromThree(Three(x)[1], Three(x)[2], Three(x)[3]) = x
           /\ Two(x)[1] < 32 /\ Two(x)[2] < 2048 /\ Three(x)[2] < 8 /\ Three(x)[3] < 256
           /\ Two(x)[1] = Three(x)[1]
\* fields of a type do not overlap and lie within it
Layouts == \A d \in DptNames : \A i, j \in 1..Len(DptType[d].flds) :
             LET a == DptType[d].flds[i] b == DptType[d].flds[j] IN
             /\ a.lo + a.n <= Width(d)
             /\ i # j => (a.name # b.name /\ (a.lo + a.n <= b.lo \/ b.lo + b.n <= a.lo))
             /\ \A k \in 1..Len(a.enum) : a.enum[k].v < Pow2(a.n)
Raws == {Raw4(x), <<Hi(x), Lo(x), Lo(x), Hi(x)>>}
Fields == \A d \in {"DPT_Control_Dimming", "DPTVimarScene", "DPT_SceneControl", "DPTSetupClima", "DPTInfoClimaReport"} :
            \A f \in FieldsOf(d) : \A raw \in Raws :
              LET v == (Hi(x) * 7 + Lo(x)) % Pow2(f.n) r == SetField(raw, f, v) IN
              /\ GetField(r, f) = v
              /\ \A g \in FieldsOf(d) : g = f \/ GetField(r, g) = GetField(raw, g)
              /\ SetField(r, f, GetField(raw, f)) = raw
\* a datapoint built from a description describes itself alike; nothing but bits outside its fields may differ
Described == \A d \in {"DPT_Switch", "DPT_Control_Dimming", "DPTVimarScene", "DPT_SceneControl", "DPTSetupClima", "DPTInfoClimaReport"} : \A raw \in Raws :
   LET b == Build(d, Zeros(4), Describe(d, raw)) IN
   /\ Describe(d, b) = Describe(d, raw)
   /\ \A f \in FieldsOf(d) : GetField(b, f) = GetField(raw, f)
   /\ Cardinality(Describe(d, raw)) = Cardinality(FieldsOf(d))
   /\ Build(d, raw, Describe(d, raw)) = raw
Float16 ==
  LET n == F16Dec(x) neg == n < 0 r == F16Enc(neg, (IF neg THEN -n ELSE n) * 10)
  IN r.in /\ F16Dec(r.raw) = n /\ F16Enc(neg, (IF neg THEN -n ELSE n) * 10 + 9).raw = r.raw
\* the largest magnitude not above, at the smallest exponent
Nearest == \A neg \in BOOLEAN :
  LET n == x * 1023 + (x % 7)
      r == F16Enc(neg, n * 10)
      d == IF neg THEN -F16Dec(r.raw) ELSE F16Dec(r.raw)
      e == Bits(r.raw, 11, 4)
  IN r.in => /\ d <= n /\ n < d + Pow2(e)
             /\ e > 0 => d >= 1024 * Pow2(e)
Float32 == \A l \in {0, 1, 32768, 65535} :
  LET r == [h |-> x, l |-> l] IN Finite(r) => F32Enc(F32Dec(r)) = r /\ F32Fits(F32Dec(r))
\* half way between r and its successor goes to the even one, slightly less or more does not
Halfway == LET r == [h |-> x, l |-> (x * 37) % 65536]
               v == F32Dec(r)
               next == IF r.l = 65535 THEN [h |-> r.h + 1, l |-> 0] ELSE [r EXCEPT !.l = @ + 1]
           IN (Finite(r) /\ F32Exp(r) > 0 /\ F32Fits([v EXCEPT !.lo = P28 + 1])) =>
              /\ F32Enc([v EXCEPT !.lo = P28]) = IF r.l % 2 = 0 THEN r ELSE next
              /\ F32Enc([v EXCEPT !.lo = P28 - 1]) = r
              /\ F32Enc([v EXCEPT !.lo = P28 + 1]) = next
Texts == LET o == <<Hi(x), Lo(x)>> IN Parse(Print(o)) = o /\ Len(Print(o)) = 4
Codec == \A d \in DptNames : LET s == Significant(d, <<Hi(x), Lo(x), Hi(x), Lo(x)>>) IN Len(s) = DptType[d].size
ASSUME Layouts
=============================================================================
