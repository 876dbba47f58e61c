----------------------------- MODULE KnxOctets -----------------------------
(* Octet arithmetic shared by all the modules.  An octet is 0..255, a text or a
   frame is a sequence of octets; 32 bit values are sequences of four octets
   because TLC's integers are 32 bit signed. *)
EXTENDS Integers, Sequences

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16
             [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256
             [] OTHER -> 2^n
\* n bits of octet (or number) b starting at bit lo
Bits(b, lo, n) == (b \div Pow2(lo)) % Pow2(n)
Bit(b, i) == Bits(b, i, 1)
Hi(w) == w \div 256
Lo(w) == w % 256
Word(h, l) == h * 256 + l
Be16(w) == <<Hi(w), Lo(w)>>
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* the last n elements, padded with zeros on the left
LastN(s, n) == [i \in 1..n |-> IF Len(s) - n + i >= 1 THEN s[Len(s) - n + i] ELSE 0]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
IsIn(x, s) == \E i \in 1..Len(s) : s[i] = x
IndexOf(x, s) == IF IsIn(x, s) THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x ELSE 0
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* bits lo..lo+n-1 (n <= 16) of a big endian octet sequence, bit 0 = least significant bit of the last octet
RECURSIVE BitsOf(_, _, _)
BitsOf(o, lo, n) ==
  IF n = 0 THEN 0
  ELSE LET i == Len(o) - (lo \div 8)
           off == lo % 8
           k == Min2(n, 8 - off)
       IN (IF i >= 1 THEN Bits(o[i], off, k) ELSE 0) + Pow2(k) * BitsOf(o, lo + k, n - k)
\* o with bits lo..lo+n-1 replaced by the low n bits of v
SetBitsOf(o, lo, n, v) ==
  [i \in 1..Len(o) |->
     LET base == (Len(o) - i) * 8
         bit(j) == LET p == base + j IN
                   IF p >= lo /\ p < lo + n THEN Bits(v, p - lo, 1) ELSE Bits(o[i], j, 1)
     IN bit(0) + 2*bit(1) + 4*bit(2) + 8*bit(3) + 16*bit(4) + 32*bit(5) + 64*bit(6) + 128*bit(7)]
Zeros(n) == [i \in 1..n |-> 0]
=============================================================================
