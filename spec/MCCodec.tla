------------------------------- MODULE MCCodec -------------------------------
(* Every 16-bit pattern, and byte patterns of the longer types, survive      *)
(* decoding and encoding; scaling keeps them apart.                          *)
EXTENDS Codec
CONSTANTS Step16, Octets, Mut
VARIABLES t, b
Pat(n) == [1..n -> Octets]
Types16 == {"int16", "uint16", "acc16", "enum16", "bitfield16", "count", "sunssf"}
Init == t = "start" /\ b \in [1..1 -> Octets]
Begin == t = "start" /\ t' \in {"int16", "uint16", "acc16", "enum16", "bitfield16", "count", "sunssf", "int32", "uint32", "acc32", "float32", "ipaddr",
                              "int64", "uint64", "acc64", "eui48", "ipv6addr", "string"} /\ b' = b
(* the first octet has been chosen, the rest follows in one step            *)
Fill == /\ t # "start" /\ Len(b) = 1 /\ t' = t
        /\ \/ SizeOf(t) = 2 /\ t # "string" /\ \E x \in 0..(65535 \div Step16), k \in {0, 1, Step16 - 1} :
                 b' = <<(x * Step16 + k) \div 256, (x * Step16 + k) % 256>>
           \/ t = "string" /\ \E p \in Pat(3) : b' = b \o p
           \/ SizeOf(t) = 4 /\ \E p \in Pat(3) : b' = b \o p
           \/ t \in {"int64", "uint64", "acc64"} /\ \E p \in Pat(2), q \in Octets : b' = b \o p \o <<q, q, q>> \o p
           \/ t = "eui48" /\ \E p \in Pat(2) : b' = <<0, 0>> \o b \o p \o <<b[1]>> \o p
           \/ t = "ipv6addr" /\ \E p \in Pat(2) : b' = b \o p \o p \o p \o b \o p \o p \o p \o p
Next == Begin \/ Fill
Spec == Init /\ [][Next]_<<t, b>>
Full == t # "start" /\ Len(b) > 1
V == IF Mut = "signed" /\ t = "uint64" THEN Signed(b) ELSE IF Mut = "little" /\ t \in IntTypes THEN Unsigned(Reverse(b)) ELSE Decode(t, b)
RoundTrip ==
  ~Full \/ V.t \in {"n", "?", "inf"} \/
  LET e == Encode(t, Len(b), V) IN
  IF t = "float32" /\ (b[1] % 128) * 2 + b[2] \div 128 = 0 THEN TRUE
  ELSE e.ok /\ e.b = b
ScaledSelf == (Full /\ V.t = "i") => \A k \in {-3, 0, 2} : SameScaled(V, k, [Num(V.s, V.d, V.e + k) EXCEPT !.t = IF k = 0 THEN "i" ELSE "f"])
                            /\ (V.d # <<>> => ~SameScaled(V, k + 1, [Num(V.s, V.d, V.e + k) EXCEPT !.t = "f"]))
=============================================================================
