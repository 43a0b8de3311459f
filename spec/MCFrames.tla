------------------------------ MODULE MCFrames ------------------------------
(* The frame codec itself, checked exhaustively over a bounded domain: a    *)
(* legal request survives encoding and parsing, no other byte sequence      *)
(* within one substitution of it is legal on RTU, and no damaged reply is a *)
(* positive answer.                                                         *)
EXTENDS ModbusFrames, TLC
CONSTANTS Units, Addrs, Counts, Masks
VARIABLES r, unit, tp, pos, mask

Reqs == [fc : {3, 4, 16}, addr : Addrs, cnt : Counts]
Data(q) == IF q.fc = 16 THEN [i \in 1..2 * q.cnt |-> (i * 37 + q.addr) % 256] ELSE <<>>
Full(q) == [fc |-> q.fc, addr |-> q.addr, cnt |-> q.cnt, data |-> Data(q)]

Init == /\ r \in {Full(q) : q \in Reqs} /\ unit \in Units /\ tp \in {"rtu", "tcp"}
        /\ pos = 0 /\ mask = 0
Next == /\ pos = 0
        /\ pos' \in 1..(2 * r.cnt + 13) /\ mask' \in Masks
        /\ UNCHANGED <<r, unit, tp>>
Spec == Init /\ [][Next]_<<r, unit, tp, pos, mask>>

Legal(q) == q.cnt <= (IF q.fc = 16 THEN MaxWrite ELSE MaxRead) /\ q.cnt >= 1 /\ q.addr + q.cnt <= 65536
Bytes == EncodeRequest(tp, unit, r)
Damage(b) == [b EXCEPT ![pos] = @ ^^ mask]
Payload == [i \in 1..2 * r.cnt |-> (i * 91 + 5) % 256]
Reply == IF tp = "rtu" THEN WithCrc(<<unit>> \o ReplyPdu(r, Payload))
         ELSE LET p == ReplyPdu(r, Payload) IN <<0, 0, 0, 0>> \o Word(Len(p) + 1) \o <<unit>> \o p

RoundTrip == LET q == ParseRequest(tp, Bytes) IN
  Legal(r) => /\ RequestFaults(tp, unit, Bytes) = {}
              /\ q.fc = r.fc /\ q.addr = r.addr /\ q.cnt = r.cnt /\ q.data = r.data
IllegalNamed == ~Legal(r) => RequestFaults(tp, unit, Bytes) # {}
DamageSeen == (pos \in 1..Len(Bytes) /\ tp = "rtu") => RequestFaults(tp, unit, Damage(Bytes)) # {}
ReplyOk == LET v == Verdict(tp, unit, r, Reply, "timeout") IN
  Legal(r) => v.v = "ok" /\ v.sure /\ v.data = (IF r.fc = 16 THEN <<>> ELSE Payload)
ReplyDamageSeen == (Legal(r) /\ pos \in 1..Len(Reply)) =>
  LET v == Verdict(tp, unit, r, Damage(Reply), "timeout") IN
  IF tp = "rtu" THEN v.v = "bad"
  ELSE (pos \in 5..6 \cup {8} \cup (IF r.fc = 16 THEN 9..12 ELSE {9}) => v.v = "bad")
ReplyCut == (Legal(r) /\ pos \in 1..Len(Reply) - 1) =>
  Verdict(tp, unit, r, SubSeq(Reply, 1, pos), "timeout").v = "bad"
=============================================================================
