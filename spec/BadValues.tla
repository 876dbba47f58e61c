------------------------------ MODULE BadValues ------------------------------
(* Wrong definitions for MCValues (see BadCodec).                              *)
EXTENDS MCValues

BadTwo(a) == <<Bits(a, 12, 4), Bits(a, 0, 12)>>
BadThree(a) == <<Bits(a, 11, 5), Bits(a, 8, 2), Bits(a, 0, 8)>>
BadSetField(raw, f, v) == SetBitsOf(raw, f.lo, IF f.lo + f.n < 8 THEN f.n + 1 ELSE f.n, v)
BadGetField(raw, f) == BitsOf(raw, 0, f.n)
\* sign and magnitude
BadF16Dec(r) == (IF Bit(r, 15) = 1 THEN -Bits(r, 0, 11) ELSE Bits(r, 0, 11)) * Pow2(Bits(r, 11, 4))
BadF16Limit(neg) == 2047
\* the exponent is larger than it need be
BadF16Exp(n, limit) == CHOOSE e \in 0..20 : n \div Pow2(e) <= limit \div 4 /\ (e = 0 \/ n \div Pow2(e - 1) > limit \div 4)
\* toward zero
BadF32Enc(v) == IF v.hi = 0 THEN F32Pack(v.s, 0, 0)
                ELSE LET e == v.x + 150 IN IF e >= 1 THEN F32Pack(v.s, e, v.hi - P23)
                ELSE IF 1 - e > 24 THEN F32Pack(v.s, 0, 0) ELSE F32Pack(v.s, 0, v.hi \div Pow2(1 - e))
BadF32Dec(r) == LET f == F32Frac(r) e == F32Exp(r) IN
                IF e > 0 THEN Num(F32Sign(r), P23 + f, 0, e - 150) ELSE Num(F32Sign(r), 0, 0, 0)
BadHexUpper(n) == IF n < 10 THEN 48 + n ELSE 56 + n
BadSignificant(d, oo) == LET ty == DptType[d] IN IF ty.sub THEN LastN(oo, 2) ELSE LastN(oo, ty.size)
\* the first name of the field whatever its value; only named values are built
BadFieldSays(f, v) == IF f.enum = <<>> THEN [f |-> f.name, nm |-> "", n |-> v] ELSE [f |-> f.name, nm |-> f.enum[1].nm, n |-> 0]
RECURSIVE BadBuild(_, _, _)
BadBuild(d, raw, desc) == IF desc = {} THEN raw
                       ELSE LET it == CHOOSE it \in desc : TRUE f == FieldOf(d, it.f) IN
                            BadBuild(d, SetField(Zeros(4), f, IF it.nm = "" THEN it.n ELSE ValueOf(f, it.nm)), desc \ {it})
=============================================================================
