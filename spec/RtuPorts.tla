------------------------------- MODULE RtuPorts -------------------------------
(***************************************************************************)
(* Devices sharing serial ports.  Events:                                   *)
(*   call    the user creates device d, reads from it or closes it           *)
(*   opening a serial port is opened (or fails to), becoming serial k        *)
(*   closing serial k is closed                                              *)
(*   send    a request is transmitted on serial k                            *)
(*   ret     the call ends                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Free == [k |-> 0, baud |-> 0, par |-> "", to |-> "", devs |-> {}]
InitState(cfg) ==
  [ports |-> << >>,        \* name -> the open port
   devs |-> << >>,         \* device -> [port, unit, open]
   in |-> FALSE, call |-> [op |-> "none"],
   attempt |-> 0,          \* openings in this call
   failed |-> FALSE,       \* one of them failed
   sends |-> 0]

Port(s, p) == IF p \in DOMAIN s.ports THEN s.ports[p] ELSE Free
IsOpen(s, p) == Port(s, p).k # 0
Conflict(s, c) ==
  IsOpen(s, c.port) /\ ((c.baud # 0 /\ Port(s, c.port).baud # c.baud) \/ (c.par # "" /\ Port(s, c.port).par # c.par))
Live(s, d) == d \in DOMAIN s.devs /\ s.devs[d].open
(* the devices of a port that remain if the call in progress succeeds       *)
Staying(s, p) == Port(s, p).devs \ (IF s.call.op = "close" THEN {s.call.d} ELSE {})

CallClauses(s, e) ==
  IF s.in THEN {"harness.nested"}
  ELSE IF e.op = "device" /\ \E d \in DOMAIN s.devs :
            s.devs[d].open /\ s.devs[d].port = e.port /\ s.devs[d].unit = e.unit THEN {"harness.unit"}
  ELSE IF e.op = "read" /\ ~Live(s, e.d) THEN {"harness.dead"} ELSE {}

OpeningClauses(s, e) ==
  IF ~s.in \/ s.call.op # "device" \/ e.port # s.call.port THEN {"port.unasked"}
  ELSE (IF IsOpen(s, e.port) THEN {"port.twice"} ELSE {})
       \cup (IF s.attempt > 0 THEN {"port.again"} ELSE {})
       \cup (IF e.baud # (IF s.call.baud = 0 THEN 9600 ELSE s.call.baud) THEN {"port.baud"} ELSE {})
       \cup (IF e.par # (IF s.call.par = "" THEN "N" ELSE s.call.par) THEN {"port.parity"} ELSE {})
       \cup (IF e.bits # 8 \/ e.stop # 1 \/ e.flow THEN {"port.line"} ELSE {})

ClosingClauses(s, e) ==
  LET ps == {p \in DOMAIN s.ports : s.ports[p].k = e.k} IN
  IF ps = {} THEN {}
  ELSE IF \E p \in ps : ~s.in \/ Staying(s, p) # {} THEN {"port.inuse"} ELSE {}

SendClauses(s, e) ==
  IF ~s.in \/ s.call.op # "read" THEN {"send.unasked"}
  ELSE LET d == s.devs[s.call.d]
           p == Port(s, d.port) IN
       (IF p.k = 0 \/ e.k # p.k THEN {"send.elsewhere"} ELSE {})
       \cup (IF e.unit # d.unit THEN {"send.unit"} ELSE {})
       \cup (IF p.k # 0 /\ e.k = p.k /\ e.to # p.to THEN {"port.timeout"} ELSE {})

RetClauses(s, e) ==
  LET c == s.call IN
  (IF e.kind = "hang" THEN {"ret.hang"} ELSE {})
  \cup (IF e.kind = "other" THEN {"ret.untyped"} ELSE {})
  \cup CASE c.op = "device" ->
              IF Conflict(s, c) /\ s.attempt = 0
              THEN (IF e.kind = "ok" THEN {"conflict.accepted"} ELSE {})
              ELSE IF s.failed THEN (IF e.kind = "ok" THEN {"open.unreported"} ELSE {})
              ELSE IF ~IsOpen(s, c.port) THEN {"open.none"}
              ELSE IF e.kind # "ok" THEN {"device.refused"} ELSE {}
         [] c.op = "close" ->
              (IF e.kind # "ok" THEN {"close.refused"} ELSE {})
              \cup (IF Live(s, c.d) /\ Staying(s, s.devs[c.d].port) = {} /\ IsOpen(s, s.devs[c.d].port)
                    THEN {"port.leftopen"} ELSE {})
         [] c.op = "read" ->
              (IF e.kind # "ok" THEN {"read.refused"} ELSE {})
              \cup (IF e.kind = "ok" /\ (s.sends # 1 \/ e.data # e.want) THEN {"read.data"} ELSE {})
         [] OTHER -> {"harness.op"}

Clauses(s, e) ==
  CASE e.e = "call" -> CallClauses(s, e)
    [] e.e = "opening" -> OpeningClauses(s, e)
    [] e.e = "closing" -> ClosingClauses(s, e)
    [] e.e = "send" -> SendClauses(s, e)
    [] e.e = "ret" -> IF s.in THEN RetClauses(s, e) ELSE {"harness.ret"}
    [] OTHER -> {"harness.event"}

Put(f, k, v) == (k :> v) @@ f

Created(s) ==
  LET c == s.call
      s1 == [s EXCEPT !.devs = Put(@, c.d, [port |-> c.port, unit |-> c.unit, open |-> TRUE])] IN
  IF ~IsOpen(s, c.port) THEN s1
  ELSE [s1 EXCEPT !.ports[c.port].devs = @ \cup {c.d},
                  !.ports[c.port].to = IF c.to # "" THEN c.to ELSE @]
Closed(s) ==
  LET c == s.call IN
  IF ~Live(s, c.d) THEN s
  ELSE LET p == s.devs[c.d].port
           s1 == [s EXCEPT !.devs[c.d].open = FALSE] IN
       IF IsOpen(s, p) THEN [s1 EXCEPT !.ports[p].devs = @ \ {c.d}] ELSE s1

Step(s, e) ==
  CASE e.e = "call" -> [s EXCEPT !.in = TRUE, !.call = e, !.attempt = 0, !.failed = FALSE, !.sends = 0]
    [] e.e = "opening" ->
         IF e.ok THEN [s EXCEPT !.attempt = @ + 1, !.ports = Put(@, e.port, [k |-> e.k, baud |-> e.baud, par |-> e.par,
                                                                             to |-> e.to, devs |-> {}])]
         ELSE [s EXCEPT !.attempt = @ + 1, !.failed = TRUE]
    [] e.e = "closing" ->
         [s EXCEPT !.ports = [p \in DOMAIN @ |-> IF @[p].k = e.k THEN Free ELSE @[p]]]
    [] e.e = "send" -> [s EXCEPT !.sends = @ + 1]
    [] e.e = "ret" ->
         [(IF e.kind # "ok" THEN s
           ELSE IF s.call.op = "device" THEN Created(s)
           ELSE IF s.call.op = "close" THEN Closed(s) ELSE s) EXCEPT !.in = FALSE]
    [] OTHER -> s
=============================================================================
