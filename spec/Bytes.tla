-------------------------------- MODULE Bytes --------------------------------
(* Big-endian byte sequences as numbers, wide enough for 64-bit values that *)
(* TLC's 32-bit integers cannot hold.                                        *)
EXTENDS Integers, Sequences, SequencesExt

Zeros(n) == [i \in 1..n |-> 0]

(* b * m + d, as [b: same length, c: carry out]                             *)
MulAdd(b, m, d) ==
  FoldRight(LAMBDA x, acc : LET v == x * m + acc.c IN [b |-> <<v % 256>> \o acc.b, c |-> v \div 256],
            b, [b |-> <<>>, c |-> d])

(* digits (most significant first) in a base, in n bytes                    *)
FromDigits(ds, base, n) ==
  FoldLeft(LAMBDA acc, d : LET r == MulAdd(acc.b, base, d) IN [b |-> r.b, over |-> acc.over \/ r.c # 0],
           [b |-> Zeros(n), over |-> FALSE], ds)

AllZero(b) == \A i \in DOMAIN b : b[i] = 0
Negative(b) == b[1] >= 128

(* two's complement                                                          *)
Neg(b) == MulAdd([i \in DOMAIN b |-> 255 - b[i]], 1, 1).b

(* b / m: quotient (same length) and remainder, m < 2^23                     *)
DivMod(b, m) ==
  FoldLeft(LAMBDA acc, x : LET v == acc.r * 256 + x IN [q |-> Append(acc.q, v \div m), r |-> v % m],
           [q |-> <<>>, r |-> 0], b)

(* decimal digits, least significant first, of b; <<>> for zero              *)
RECURSIVE DigitsOf(_)
DigitsOf(b) == IF AllZero(b) THEN <<>> ELSE LET d == DivMod(b, 10) IN <<d.r>> \o DigitsOf(d.q)

-----------------------------------------------------------------------------
(* characters, as code points                                                *)
IsDigit(c) == c \in 48..57
IsHex(c) == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87

(* the two's complement bytes (n of them) of the integer written in txt:     *)
(* optional sign, decimal digits or 0x and hexadecimal digits                *)
NoInt(n) == [ok |-> FALSE, b |-> Zeros(n)]
IntBytes(txt, n, signed) ==
  LET neg == Len(txt) > 0 /\ txt[1] = 45
      t == IF Len(txt) > 0 /\ txt[1] \in {43, 45} THEN Tail(txt) ELSE txt
      hex == Len(t) > 2 /\ t[1] = 48 /\ t[2] \in {88, 120}
      ds == IF hex THEN SubSeq(t, 3, Len(t)) ELSE t IN
  IF ds = <<>> \/ \E i \in DOMAIN ds : ~(IF hex THEN IsHex(ds[i]) ELSE IsDigit(ds[i])) THEN NoInt(n)
  ELSE LET m == FromDigits([i \in DOMAIN ds |-> HexVal(ds[i])], IF hex THEN 16 ELSE 10, n)
           v == IF neg THEN Neg(m.b) ELSE m.b IN
       IF m.over THEN NoInt(n)
       ELSE IF AllZero(m.b) THEN [ok |-> TRUE, b |-> m.b]
       ELSE IF ~signed THEN [ok |-> ~neg, b |-> v]
       ELSE [ok |-> IF neg THEN Negative(v) ELSE ~Negative(v), b |-> v]

(* IEEE 754 bytes of (-1)^s * 1.bits * 2^e (bits: fraction, most significant *)
(* first; zero if e = "zero"), for a normal number                           *)
Pow2(k) == 2^k
BitsToBytes(bits) == [i \in 1..(Len(bits) \div 8) |->
  LET f(j) == bits[8 * (i - 1) + j] IN
  128 * f(1) + 64 * f(2) + 32 * f(3) + 16 * f(4) + 8 * f(5) + 4 * f(6) + 2 * f(7) + f(8)]
IntBits(v, n) == [i \in 1..n |-> (v \div Pow2(n - i)) % 2]
PadBits(bits, n) == [i \in 1..n |-> IF i <= Len(bits) THEN bits[i] ELSE 0]
Ieee(f, ebits, mbits) ==
  IF f.zero THEN BitsToBytes(<<f.s>> \o [i \in 1..ebits + mbits |-> 0])
  ELSE BitsToBytes(<<f.s>> \o IntBits(f.e + Pow2(ebits - 1) - 1, ebits) \o PadBits(f.bits, mbits))
Float32(f) == Ieee(f, 8, 23)
Float64(f) == Ieee(f, 11, 52)
FitsFloat(f, ebits, mbits) ==
  f.zero \/ (Len(f.bits) <= mbits /\ f.e >= 2 - Pow2(ebits - 1) /\ f.e <= Pow2(ebits - 1) - 1)
=============================================================================
