---------------------------- MODULE ModbusFrames ----------------------------
(***************************************************************************)
(* Modbus application frames as byte sequences: what a legal request is    *)
(* (RTU and TCP), and what a sequence of reply bytes means for a request.  *)
(* Written from the Modbus specifications, not from the implementation.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

ReadHolding == 3
ReadInput == 4
WriteMultiple == 16
MaxRead == 125
MaxWrite == 123

Hi(n) == (n \div 256) % 256
Lo(n) == n % 256
W(b, i) == b[i] * 256 + b[i + 1]
Word(n) == <<Hi(n), Lo(n)>>

(* CRC-16/MODBUS: reflected polynomial A001, initial value FFFF.           *)
RECURSIVE CrcBits(_, _)
CrcBits(x, n) == IF n = 0 THEN x
                 ELSE CrcBits(IF x % 2 = 1 THEN (x \div 2) ^^ 40961 ELSE x \div 2, n - 1)
CrcTable == [x \in 0..255 |-> CrcBits(x, 8)]
Crc(bytes) == FoldLeft(LAMBDA acc, b : (acc \div 256) ^^ CrcTable[(acc ^^ b) % 256], 65535, bytes)
CrcBytes(bytes) == LET c == Crc(bytes) IN <<Lo(c), Hi(c)>>
WithCrc(bytes) == bytes \o CrcBytes(bytes)
CrcOk(b) == Len(b) >= 4 /\ SubSeq(b, Len(b) - 1, Len(b)) = CrcBytes(SubSeq(b, 1, Len(b) - 2))

-----------------------------------------------------------------------------
(* Requests.  r = [fc, addr, cnt, data]; data is the byte sequence written *)
(* (empty for reads).                                                      *)
RequestPdu(r) ==
  IF r.fc = WriteMultiple
  THEN <<r.fc>> \o Word(r.addr) \o Word(r.cnt) \o <<2 * r.cnt>> \o r.data
  ELSE <<r.fc>> \o Word(r.addr) \o Word(r.cnt)

EncodeRequest(tp, unit, r) ==
  IF tp = "rtu" THEN WithCrc(<<unit>> \o RequestPdu(r))
  ELSE LET p == RequestPdu(r) IN <<0, 0, 0, 0>> \o Word(Len(p) + 1) \o <<unit>> \o p

NoRequest == [fc |-> 0, addr |-> 0, cnt |-> 0, data |-> <<>>]

PduFaults(p) ==
  IF Len(p) < 5 THEN {"pdu.short"}
  ELSE LET fc == p[1]
           addr == W(p, 2)
           cnt == W(p, 4) IN
    IF fc \in {ReadHolding, ReadInput}
    THEN (IF Len(p) # 5 THEN {"pdu.length"} ELSE {})
         \cup (IF cnt \notin 1..MaxRead THEN {"pdu.count"} ELSE {})
         \cup (IF addr + cnt > 65536 THEN {"pdu.range"} ELSE {})
    ELSE IF fc = WriteMultiple
    THEN (IF Len(p) < 6 \/ Len(p) # 6 + 2 * cnt THEN {"pdu.length"} ELSE {})
         \cup (IF cnt \notin 1..MaxWrite THEN {"pdu.count"} ELSE {})
         \cup (IF addr + cnt > 65536 THEN {"pdu.range"} ELSE {})
         \cup (IF Len(p) >= 6 /\ p[6] # (2 * cnt) % 256 THEN {"pdu.bytecount"} ELSE {})
    ELSE {"pdu.func"}

Pdu(tp, b) == IF tp = "rtu" THEN SubSeq(b, 2, Len(b) - 2) ELSE SubSeq(b, 8, Len(b))

(* the names of the rules of the wire format that the bytes b break        *)
RequestFaults(tp, unit, b) ==
  IF tp = "rtu"
  THEN IF Len(b) < 8 THEN {"frame.short"}
       ELSE (IF ~CrcOk(b) THEN {"frame.crc"} ELSE {})
            \cup (IF b[1] # unit THEN {"frame.unit"} ELSE {})
            \cup PduFaults(Pdu(tp, b))
  ELSE IF Len(b) < 12 THEN {"frame.short"}
       ELSE (IF W(b, 3) # 0 THEN {"frame.proto"} ELSE {})
            \cup (IF W(b, 5) # Len(b) - 6 THEN {"frame.len"} ELSE {})
            \cup (IF b[7] # unit THEN {"frame.unit"} ELSE {})
            \cup PduFaults(Pdu(tp, b))

ParseRequest(tp, b) ==
  LET p == Pdu(tp, b) IN
  IF Len(p) < 5 THEN NoRequest
  ELSE [fc |-> p[1], addr |-> W(p, 2), cnt |-> W(p, 4),
        data |-> IF p[1] = WriteMultiple /\ Len(p) >= 6 THEN SubSeq(p, 7, Len(p)) ELSE <<>>]

-----------------------------------------------------------------------------
(* Replies.                                                                *)
ReplyPdu(r, payload) ==
  IF r.fc = WriteMultiple THEN <<r.fc>> \o Word(r.addr) \o Word(r.cnt)
  ELSE <<r.fc, (2 * r.cnt) % 256>> \o payload
ExceptionPdu(r, code) == <<(r.fc % 128) + 128, code>>

(* length of the frame a positive answer to r has                          *)
OkLen(tp, r) ==
  LET n == IF r.fc = WriteMultiple THEN 5 ELSE 2 + 2 * r.cnt IN
  IF tp = "rtu" THEN n + 3 ELSE n + 7
ExcLen(tp) == IF tp = "rtu" THEN 5 ELSE 9

Unframe(tp, b) == IF tp = "rtu" THEN SubSeq(b, 2, Len(b) - 2) ELSE SubSeq(b, 8, Len(b))

FrameGood(tp, unit, b) ==
  IF tp = "rtu" THEN CrcOk(b) /\ b[1] = unit
  ELSE W(b, 5) = Len(b) - 6

(* parts of a TCP header the client may, but need not, insist on           *)
FrameOdd(tp, unit, b) ==
  tp = "tcp" /\ (W(b, 1) # 0 \/ W(b, 3) # 0 \/ b[7] # unit)

IsOkReply(tp, unit, r, b) ==
  /\ Len(b) = OkLen(tp, r)
  /\ FrameGood(tp, unit, b)
  /\ LET p == Unframe(tp, b) IN
     IF r.fc = WriteMultiple THEN p = ReplyPdu(r, <<>>)
     ELSE p[1] = r.fc /\ p[2] = (2 * r.cnt) % 256

IsExcReply(tp, unit, r, b) ==
  /\ Len(b) = ExcLen(tp)
  /\ FrameGood(tp, unit, b)
  /\ Unframe(tp, b)[1] = (r.fc % 128) + 128

(* What the bytes rep, followed by silence, end of stream or an error,     *)
(* mean as the answer to r:                                                *)
(*   ok      a positive answer carrying data                               *)
(*   exc     a valid exception reply                                       *)
(*   silent  nothing came                                                  *)
(*   bad     anything else                                                 *)
(* sure is FALSE if the client may also reject it (surplus bytes, header   *)
(* fields a client need not check).                                        *)
NoVerdict == [v |-> "none", data |-> <<>>, code |-> 0, sure |-> TRUE]
Verdict(tp, unit, r, rep, end) ==
  LET n == OkLen(tp, r)
      m == ExcLen(tp) IN
  IF Len(rep) = 0
  THEN [NoVerdict EXCEPT !.v = IF end = "timeout" THEN "silent" ELSE "bad"]
  ELSE IF Len(rep) >= n /\ IsOkReply(tp, unit, r, SubSeq(rep, 1, n))
  THEN [v |-> "ok",
        data |-> IF r.fc = WriteMultiple THEN <<>> ELSE SubSeq(Unframe(tp, SubSeq(rep, 1, n)), 3, 2 + 2 * r.cnt),
        code |-> 0,
        sure |-> Len(rep) = n /\ ~FrameOdd(tp, unit, rep)]
  ELSE IF Len(rep) >= m /\ IsExcReply(tp, unit, r, SubSeq(rep, 1, m))
  THEN [v |-> "exc", data |-> <<>>, code |-> Unframe(tp, SubSeq(rep, 1, m))[2],
        sure |-> Len(rep) = m /\ ~FrameOdd(tp, unit, rep)]
  ELSE [NoVerdict EXCEPT !.v = "bad"]
=============================================================================
