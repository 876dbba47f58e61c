----------------------------- MODULE KnxValues -----------------------------
(* Values the stack converts: group address notations, the named fields of
   datapoint types, 16 and 32 bit floats, texts of octets.                    *)
EXTENDS KnxDptTypes

(***************************************************************************)
(* Group addresses: 0..65535                                               *)
(***************************************************************************)
Two(a) == <<Bits(a, 11, 5), Bits(a, 0, 11)>>
Three(a) == <<Bits(a, 11, 5), Bits(a, 8, 3), Bits(a, 0, 8)>>
FromTwo(m, s) == m * 2048 + s
FromThree(m, mid, s) == m * 2048 + mid * 256 + s

(***************************************************************************)
(* Fields.  A raw value is a sequence of four octets.                       *)
(***************************************************************************)
Raw4(n) == <<0, 0, Hi(n), Lo(n)>>
FieldsOf(d) == {DptType[d].flds[i] : i \in 1..Len(DptType[d].flds)}
HasField(d, nm) == \E f \in FieldsOf(d) : f.name = nm
FieldOf(d, nm) == CHOOSE f \in FieldsOf(d) : f.name = nm
GetField(raw, f) == BitsOf(raw, f.lo, f.n)
SetField(raw, f, v) == SetBitsOf(raw, f.lo, f.n, v)
Named(f, nm) == \E i \in 1..Len(f.enum) : f.enum[i].nm = nm
ValueOf(f, nm) == f.enum[CHOOSE i \in 1..Len(f.enum) : f.enum[i].nm = nm].v
NamesOf(f, v) == {f.enum[i].nm : i \in {j \in 1..Len(f.enum) : f.enum[j].v = v}}
(* a description: for every public field its value, by name where it has one; and the raw value built from one, on a fresh datapoint *)
FieldSays(f, v) == IF f.enum = <<>> \/ NamesOf(f, v) = {} THEN [f |-> f.name, nm |-> "", n |-> v] ELSE [f |-> f.name, nm |-> CHOOSE nm \in NamesOf(f, v) : TRUE, n |-> 0]
Describe(d, raw) == {FieldSays(f, GetField(raw, f)) : f \in FieldsOf(d)}
RECURSIVE Build(_, _, _)
Build(d, raw, desc) == IF desc = {} THEN raw
                       ELSE LET it == CHOOSE it \in desc : TRUE f == FieldOf(d, it.f) IN
                            Build(d, SetField(raw, f, IF it.nm = "" THEN it.n ELSE ValueOf(f, it.nm)), desc \ {it})
\* bits of the raw value which belong to the type
Width(d) == DptType[d].size * 8

(***************************************************************************)
(* 16 bit floats; numbers are hundredths, inputs thousandths                *)
(***************************************************************************)
F16Dec(r) == (IF Bit(r, 15) = 1 THEN Bits(r, 0, 11) - 2048 ELSE Bits(r, 0, 11)) * Pow2(Bits(r, 11, 4))
F16Limit(neg) == IF neg THEN 2048 ELSE 2047
F16Exp(n, limit) == CHOOSE e \in 0..20 : n \div Pow2(e) <= limit /\ (e = 0 \/ n \div Pow2(e - 1) > limit)
F16Pack(neg, e, m) == IF m = 0 THEN 0 ELSE (IF neg THEN 32768 + 2048 - m ELSE m) + e * 2048
\* in: the value can be stored; may: it is beyond the range by less than a step
F16Enc(neg, k) ==
  LET n == k \div 10
      limit == F16Limit(neg)
      e == F16Exp(n, limit)
  IN IF e > 15 THEN [in |-> FALSE, may |-> FALSE, raw |-> 0]
     ELSE [in |-> k <= limit * 327680, may |-> TRUE, raw |-> F16Pack(neg, e, n \div Pow2(e))]

(***************************************************************************)
(* 32 bit floats.  A number is [s, hi, lo, x]: (-1)^s * (hi + lo / 2^29) * 2^x *)
(* with 2^23 <= hi < 2^24, or hi = lo = x = 0; a raw value [h, l] 16 bit halves *)
(***************************************************************************)
P23 == 8388608
P24 == 16777216
P28 == 268435456
Num(s, hi, lo, x) == [s |-> s, hi |-> hi, lo |-> lo, x |-> x]
RECURSIVE Norm(_, _)
Norm(m, x) == IF m >= P23 THEN <<m, x>> ELSE Norm(m * 2, x - 1)
F32Sign(r) == Bit(r.h, 15)
F32Exp(r) == Bits(r.h, 7, 8)
F32Frac(r) == Bits(r.h, 0, 7) * 65536 + r.l
Finite(r) == F32Exp(r) # 255
F32Dec(r) == LET f == F32Frac(r) e == F32Exp(r) IN
             IF e > 0 THEN Num(F32Sign(r), P23 + f, 0, e - 150)
             ELSE IF f = 0 THEN Num(F32Sign(r), 0, 0, 0)
             ELSE LET q == Norm(f, -149) IN Num(F32Sign(r), q[1], 0, q[2])
F32Pack(s, e, f) == [h |-> s * 32768 + e * 128 + f \div 65536, l |-> f % 65536]
\* e: biased exponent, m: 24 bit mantissa or a subnormal one (e = 0 stands for 1 then)
F32Enc(v) ==
  IF v.hi = 0 THEN F32Pack(v.s, 0, 0)
  ELSE LET e == v.x + 150
       IN IF e >= 1
          THEN LET up == v.lo > P28 \/ (v.lo = P28 /\ v.hi % 2 = 1)
                   m == IF up THEN v.hi + 1 ELSE v.hi
                   over == m = P24
               IN IF over THEN F32Pack(v.s, e + 1, 0) ELSE F32Pack(v.s, e, m - P23)
          ELSE LET d == 1 - e IN
               IF d > 24 THEN F32Pack(v.s, 0, 0)
               ELSE LET q == v.hi \div Pow2(d)
                        rem == v.hi % Pow2(d)
                        half == Pow2(d - 1)
                        up == rem > half \/ (rem = half /\ (v.lo > 0 \/ q % 2 = 1))
                        m == IF up THEN q + 1 ELSE q
                    IN IF m = P23 THEN F32Pack(v.s, 1, 0) ELSE F32Pack(v.s, 0, m)
\* the largest finite number rounds to itself; what rounds beyond it is not representable
F32Fits(v) == v.x + 150 < 254 \/ (v.x + 150 = 254 /\ (v.hi < P24 - 1 \/ v.lo < P28))

(***************************************************************************)
(* Texts: sequences of character codes                                      *)
(***************************************************************************)
HexValue(b) == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] b \in 97..102 -> b - 87 [] OTHER -> -1
HexUpper(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Parse(t) == [i \in 1..(Len(t) \div 2) |-> HexValue(t[2 * i - 1]) * 16 + HexValue(t[2 * i])]
Print(o) == [i \in 1..(2 * Len(o)) |-> LET b == o[(i + 1) \div 2] IN HexUpper(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
\* a message is a list: an octet put in place of another or changed, added, inserted, taken out
MsgEdit(m, how, j, v) == CASE how \in {"put", "value"} -> [m EXCEPT ![j] = v]
                           [] how = "add" -> Append(m, v)
                           [] how = "insert" -> SubSeq(m, 1, j - 1) \o <<v>> \o SubSeq(m, j, Len(m))
                           [] how = "delete" -> SubSeq(m, 1, j - 1) \o SubSeq(m, j + 1, Len(m))
\* "0x", then the octets in upper case
HexText(os) == <<48, 120>> \o Print(os)
(* a number and its parts: the nibbles of an octet, the octets of the others, most significant first *)
NumParts(k, o) == IF k = "octect" THEN <<o[1] \div 16, o[1] % 16>> ELSE o
NumFrom(k, p) == IF k = "octect" THEN <<p[1] * 16 + p[2]>> ELSE p
NumWith(k, o, j, v) == NumFrom(k, [NumParts(k, o) EXCEPT ![j] = v])
(* a message is read from its front: single numbers, and the blocks of KNXnet/IP *)
Numbers == {"octect", "short", "long"}
Blocks == {"HPAI", "CRI", "CRD", "header"}
TakeSize(k) == CASE k = "octect" -> 1 [] k = "short" -> 2 [] k = "HPAI" -> 8 [] OTHER -> 4
\* what a block says of m, which has its octets: an endpoint, the kind of connection and a layer or an address, a connection header
BlockSays(k, m) == CASE k = "HPAI" -> SubSeq(m, 3, 6) \o <<Word(m[7], m[8])>>
                     [] k = "CRI" -> <<m[2], m[3]>>
                     [] k = "CRD" -> <<m[2], Word(m[3], m[4])>>
                     [] k = "header" -> <<m[2], m[3], m[4]>>
\* numbers say their octets
Says(k, m) == IF k \in Blocks THEN BlockSays(k, m) ELSE Take(m, TakeSize(k))
=============================================================================
