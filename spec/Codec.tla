-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* SunSpec point types: what the registers of a point mean, and how a       *)
(* value is put into registers.                                             *)
(*                                                                          *)
(* A value is a record [t, s, d, e, c]:                                     *)
(*   t = "n"    no value (not implemented)                                  *)
(*   t = "i"    the integer (-1)^s * d * 10^e, d a digit sequence without   *)
(*              trailing zeros                                              *)
(*   t = "f"    a floating point number: the same to 15 digits, and, if it  *)
(*              fits, exactly (-1)^s * c[1] * 2^c[2] with c[1] odd          *)
(*   t = "inf"  an infinity of sign s                                       *)
(*   t = "s"    the text with code points c                                 *)
(*   t = "?"    anything                                                    *)
(***************************************************************************)
EXTENDS Bytes, TLC

NoVal == [t |-> "n", s |-> 0, d |-> <<>>, e |-> 0, c |-> <<>>]
AnyVal == [NoVal EXCEPT !.t = "?"]
TextVal(c) == [NoVal EXCEPT !.t = "s", !.c = c]

(* digits, most significant first, and exponent without trailing zeros      *)
RECURSIVE Strip(_, _)
Strip(d, e) == IF d = <<>> THEN [d |-> <<>>, e |-> 0]
               ELSE IF d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1), e + 1)
               ELSE [d |-> d, e |-> e]
RECURSIVE Lead(_)
Lead(d) == IF d # <<>> /\ d[1] = 0 THEN Lead(Tail(d)) ELSE d
Num(s, d, e) == LET r == Strip(Lead(d), e) IN
                [NoVal EXCEPT !.t = "i", !.s = IF r.d = <<>> THEN 0 ELSE s, !.d = r.d, !.e = r.e]
RECURSIVE SmallDigits(_)
SmallDigits(x) == IF x = 0 THEN <<>> ELSE Append(SmallDigits(x \div 10), x % 10)
IntVal(s, b) ==
  IF Len(b) = 2 THEN Num(s, SmallDigits(b[1] * 256 + b[2]), 0)
  ELSE Num(s, Reverse(DigitsOf(b)), 0)
Unsigned(b) == IntVal(0, b)
Signed(b) == IF Negative(b) THEN IntVal(1, Neg(b)) ELSE IntVal(0, b)

AllOnes(b) == \A i \in DOMAIN b : b[i] = 255
LowestInt(b) == b[1] = 128 /\ \A i \in 2..Len(b) : b[i] = 0

RECURSIVE RStrip(_)
RStrip(c) == IF c # <<>> /\ c[Len(c)] = 0 THEN RStrip(SubSeq(c, 1, Len(c) - 1)) ELSE c

HexCode(x) == IF x < 10 THEN 48 + x ELSE 55 + x
HexCodes(b) == FoldLeft(LAMBDA acc, x : acc \o <<HexCode(x \div 16), HexCode(x % 16)>>, <<>>, b)
Join(parts, sep) == FoldLeft(LAMBDA acc, x : IF acc = <<>> THEN x ELSE acc \o <<sep>> \o x, <<>>, parts)
Eui48Text(b) == Join([i \in 1..6 |-> HexCodes(<<b[i + 2]>>)], 58)
Ipv6Text(b) == Join([i \in 1..4 |-> HexCodes(SubSeq(b, 4 * i - 3, 4 * i))], 58)

(* m * 2^x with m odd                                                       *)
RECURSIVE Odd(_, _)
Odd(m, x) == IF m = 0 THEN <<>> ELSE IF m % 2 = 1 THEN <<m, x>> ELSE Odd(m \div 2, x + 1)
FloatVal(b) ==
  LET s == b[1] \div 128
      e == (b[1] % 128) * 2 + b[2] \div 128
      f == ((b[2] % 128) * 256 + b[3]) * 256 + b[4] IN
  IF e = 255 THEN (IF f = 0 THEN [NoVal EXCEPT !.t = "inf", !.s = s] ELSE NoVal)
  ELSE [NoVal EXCEPT !.t = "f", !.s = s, !.c = IF e = 0 THEN Odd(f, -149) ELSE Odd(f + 8388608, e - 150)]

SignedTypes == {"int16", "int32", "int64", "sunssf"}
UnsignedTypes == {"uint16", "uint32", "uint64", "count", "enum16", "enum32", "bitfield16", "bitfield32"}
AccTypes == {"acc16", "acc32", "acc64", "ipaddr"}
IntTypes == SignedTypes \cup UnsignedTypes \cup AccTypes
Bytes4 == {"int32", "uint32", "enum32", "bitfield32", "acc32", "ipaddr", "float32"}
Bytes8 == {"int64", "uint64", "acc64", "eui48"}
SizeOf(t) == IF t \in Bytes4 THEN 4 ELSE IF t \in Bytes8 THEN 8 ELSE IF t = "ipv6addr" THEN 16 ELSE 2

Decode(t, b) ==
  CASE t \in SignedTypes -> IF LowestInt(b) THEN NoVal ELSE Signed(b)
    [] t \in UnsignedTypes -> IF AllOnes(b) THEN NoVal ELSE Unsigned(b)
    (* a 64-bit accumulator counts to 2^63 - 1                              *)
    [] t \in AccTypes -> IF AllZero(b) THEN NoVal ELSE IF t = "acc64" /\ Negative(b) THEN AnyVal ELSE Unsigned(b)
    [] t = "float32" -> FloatVal(b)
    [] t = "string" -> IF b = <<>> \/ b[1] = 0 THEN NoVal ELSE TextVal(RStrip(b))
    [] t = "eui48" -> IF AllZero(b) \/ AllOnes(SubSeq(b, 3, 8)) THEN NoVal ELSE TextVal(Eui48Text(b))
    [] t = "ipv6addr" -> IF AllZero(b) THEN NoVal ELSE TextVal(Ipv6Text(b))
    [] OTHER -> AnyVal

(* an observed value against the expected one                               *)
Same(x, o) ==
  \/ x.t = "?"
  \/ x.t \in {"n", "s", "inf", "i"} /\ o = x
  \/ x.t = "f" /\ o.t = "f" /\ o.c = x.c /\ o.s = x.s

(* x times ten to the k, as an observed number: exact to 15 digits          *)
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>>
          ELSE IF d[Len(d)] = 9 THEN Append(Inc(SubSeq(d, 1, Len(d) - 1)), 0)
          ELSE Append(SubSeq(d, 1, Len(d) - 1), d[Len(d)] + 1)
SameScaled(x, k, o) ==
  IF x.t \notin {"i", "f"} \/ k = 0 THEN Same(x, o)
  ELSE IF x.t = "f" THEN o.t = "f"
  ELSE LET exact == Num(x.s, x.d, x.e + k)
           short == SubSeq(exact.d, 1, 15)
           e == exact.e + Len(exact.d) - 15
           near == {Num(x.s, short, e), Num(x.s, Inc(short), e)} IN
       /\ o.t \in {"i", "f"}
       /\ LET n == [o EXCEPT !.t = "i", !.c = <<>>] IN
          \/ n = exact \/ (Len(exact.d) > 15 /\ n \in near)

-----------------------------------------------------------------------------
(* Encoding.  Enc is [ok, b]: ok FALSE if the type cannot hold the value.   *)
NoEnc == [ok |-> FALSE, b |-> <<>>]
Ten(n) == [i \in 1..n |-> 0]
EncInt(t, n, v) ==
  IF v.t # "i" \/ v.e > 25 \/ v.e < 0 THEN NoEnc
  ELSE LET m == FromDigits(v.d \o Ten(v.e), 10, n)
           b == IF v.s = 1 THEN Neg(m.b) ELSE m.b IN
       IF m.over THEN NoEnc
       ELSE IF AllZero(m.b) THEN [ok |-> TRUE, b |-> m.b]
       ELSE IF t \in SignedTypes THEN [ok |-> (v.s = 1) = Negative(b), b |-> b]
       ELSE [ok |-> v.s = 0 /\ ~(t = "acc64" /\ Negative(b)), b |-> b]

RECURSIVE TopBit(_)
TopBit(m) == IF m < 2 THEN 0 ELSE 1 + TopBit(m \div 2)
EncFloat(v) ==
  IF v.t # "f" THEN NoEnc
  ELSE IF v.c = <<>> THEN [ok |-> TRUE, b |-> <<128 * v.s, 0, 0, 0>>]
  ELSE LET m == v.c[1]
           p == TopBit(m)
           e == v.c[2] + p IN
       IF p > 23 \/ e < -126 \/ e > 127 THEN NoEnc
       ELSE [ok |-> TRUE, b |-> Float32([zero |-> FALSE, s |-> v.s, e |-> e, bits |-> IntBits(m - Pow2(p), p)])]

FromHex(c) == [i \in 1..Len(c) \div 2 |-> 16 * HexVal(c[2 * i - 1]) + HexVal(c[2 * i])]
NoColon(c) == SelectSeq(c, LAMBDA x : x # 58)
Encode(t, n, v) ==
  CASE t \in IntTypes -> EncInt(t, n, v)
    [] t = "float32" -> EncFloat(v)
    [] t = "string" -> IF v.t # "s" \/ Len(v.c) > n THEN NoEnc ELSE [ok |-> TRUE, b |-> v.c \o Zeros(n - Len(v.c))]
    [] t = "eui48" -> IF v.t # "s" \/ Len(NoColon(v.c)) # 12 THEN NoEnc ELSE [ok |-> TRUE, b |-> <<0, 0>> \o FromHex(NoColon(v.c))]
    [] t = "ipv6addr" -> IF v.t # "s" \/ Len(NoColon(v.c)) # 32 THEN NoEnc ELSE [ok |-> TRUE, b |-> FromHex(NoColon(v.c))]
    [] OTHER -> NoEnc
=============================================================================
