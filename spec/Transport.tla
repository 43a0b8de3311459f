------------------------------ MODULE Transport ------------------------------
(***************************************************************************)
(* The contract of a Modbus client (RTU or TCP) as a labelled transition   *)
(* system.  A state s records what has happened between the user, the      *)
(* client and the outside world; an event e is one observable step:        *)
(*                                                                         *)
(*   call   the user calls read, write, connect, disconnect or close       *)
(*   new    the client creates a socket          (TCP)                     *)
(*   open   a connection attempt ends            (TCP)                     *)
(*   closed the client closes a socket           (TCP)                     *)
(*   send   the client transmits a request; carries what the world answers *)
(*   ret    the call returns or raises                                     *)
(*                                                                         *)
(* Clauses(s, e) is the set of names of rules that e breaks in s; an       *)
(* execution conforms iff it is empty at every step.  Step(s, e) is the    *)
(* next state.  The same two operators are used by the exhaustively        *)
(* checked client model (MCTransport) and by the validation of traces      *)
(* recorded from the implementation (TransportTrace).                      *)
(***************************************************************************)
EXTENDS ModbusFrames, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b

(* cfg = [tp, unit, max, host, port, timeout, trace, fill, pat, via] *)
InitState(cfg) ==
  [cfg |-> cfg,
   in |-> FALSE,            \* a call is in progress
   call |-> [op |-> "none", fc |-> 0, addr |-> 0, cnt |-> 0, data |-> <<>>, odd |-> FALSE],
   done |-> 0,              \* registers covered by answered requests of this call
   got |-> <<>>,            \* data they returned
   stat |-> "run",          \* run, fail (an exchange of this call failed), maybe
   ver |-> NoVerdict,       \* how it failed
   sent |-> 0,              \* requests sent in this call
   socks |-> <<>>,          \* socket number -> new, open, closed
   taint |-> {},            \* sockets with a failed exchange
   cto |-> "",              \* timeout with which the connection was opened
   expl |-> 0,              \* explicitly opened socket in use, or 0
   fresh |-> 0,             \* sockets created in this call
   conn |-> "none",         \* outcome of the connection attempt of this call
   mem |-> << >>,           \* registers changed so far: address -> word
   txrx |-> <<>>]           \* what a trace of this call must show

-----------------------------------------------------------------------------
Limit(s) == Min2(s.cfg.max, IF s.call.op = "write" THEN MaxWrite ELSE MaxRead)
IsIO(op) == op \in {"read", "write"}
InRange(c) == c.addr >= 0 /\ c.addr + c.cnt <= 65536
Legal(c) == InRange(c) /\ ~c.odd
OpenSocks(s) == {k \in DOMAIN s.socks : s.socks[k] # "closed"}

Fill(s, fc, a) ==
  LET input == IF fc = ReadInput THEN 1 ELSE 0
      lin == (a * 7 + s.cfg.fill + 4099 * input) % 65536
      run == (a + s.cfg.fill + 16 * input) \div 16 IN
  CASE s.cfg.pat = 1 -> (CASE run % 4 = 0 -> 0 [] run % 4 = 1 -> 65535 [] run % 4 = 2 -> lin [] OTHER -> 32768)
    [] s.cfg.pat = 2 -> (CASE (s.cfg.fill + input) % 4 = 0 -> 0 [] (s.cfg.fill + input) % 4 = 1 -> 65535
                           [] (s.cfg.fill + input) % 4 = 2 -> 32639 [] OTHER -> 32768)
    [] OTHER -> lin
Reg(s, fc, a) == IF fc # ReadInput /\ a \in DOMAIN s.mem THEN s.mem[a] ELSE Fill(s, fc, a)
MemBytes(s, fc, a, n) == [i \in 1..2 * n |-> LET w == Reg(s, fc, a + (i - 1) \div 2)
                                             IN IF i % 2 = 1 THEN Hi(w) ELSE Lo(w)]
StoreData(mem, addr, data) ==
  LET n == Len(data) \div 2 IN
  [a \in (DOMAIN mem) \cup (addr..addr + n - 1) |->
     IF a \in addr..addr + n - 1 THEN W(data, 2 * (a - addr) + 1) ELSE mem[a]]

ErrKinds == {"err", "timeout"}

-----------------------------------------------------------------------------
CallClauses(s, e) == IF s.in THEN {"harness.nested"} ELSE {}

NewClauses(s, e) ==
  (IF s.cfg.tp # "tcp" THEN {"conn.unexpected"} ELSE {})
  \cup (IF ~s.in \/ s.call.op \notin {"read", "write", "connect"} THEN {"conn.unexpected"} ELSE {})
  \cup (IF s.in /\ IsIO(s.call.op) /\ s.expl # 0 THEN {"conn.needless"} ELSE {})
  \cup (IF s.fresh > 0 THEN {"conn.again"} ELSE {})

OpenClauses(s, e) ==
  (IF e.host # s.cfg.host \/ e.port # s.cfg.port THEN {"conn.target"} ELSE {})
  \cup (IF e.to # (IF s.call.op = "connect" /\ s.call.to # "" THEN s.call.to ELSE s.cfg.timeout)
        THEN {"conn.timeout"} ELSE {})

(* e.req is the parsed request, e.faults the wire rules it breaks          *)
SendClauses(s, e) ==
  LET c == s.call
      q == e.req
      left == c.cnt - s.done IN
  e.faults
  \cup (IF s.cfg.tp = "tcp" /\ (e.k \notin DOMAIN s.socks \/ s.socks[e.k] # "open")
        THEN {"send.closed"} ELSE {})
  \cup (IF s.cfg.tp = "rtu" /\ s.cfg.timeout # "" /\ e.to # s.cfg.timeout THEN {"port.timeout"} ELSE {})
  \cup (IF s.cfg.tp = "tcp" /\ e.to # s.cto THEN {"conn.timeout"} ELSE {})
  \cup (IF s.cfg.tp = "tcp" /\ e.k \in s.taint THEN {"send.tainted"} ELSE {})
  \cup (IF s.cfg.tp = "tcp" /\ s.expl # 0 /\ e.k # s.expl THEN {"send.elsewhere"} ELSE {})
  \cup (IF ~s.in \/ ~IsIO(c.op) THEN {"send.unasked"} ELSE
        (IF ~Legal(c) THEN {"send.illegal"} ELSE {})
        \cup (IF s.stat = "fail" THEN {"send.afterfail"} ELSE {})
        \cup (IF q.fc # c.fc THEN {"send.func"} ELSE {})
        \cup (IF q.addr # c.addr + s.done THEN {"send.addr"} ELSE {})
        \cup (IF q.cnt > left THEN {"send.toomuch"} ELSE {})
        \cup (IF q.cnt > Limit(s) THEN {"send.limit"} ELSE {})
        \cup (IF c.op = "write" /\ q.cnt <= left
                 /\ q.data # SubSeq(c.data, 2 * s.done + 1, 2 * (s.done + q.cnt))
              THEN {"send.data"} ELSE {}))

(* kinds of outcome the user may see                                       *)
(* via = "client": through a SunSpec device, which has one error type      *)
FailKinds(via, v) ==
  IF via = "client" THEN {"err"}
  ELSE IF v.v = "exc" THEN (IF v.sure THEN {"exc"} ELSE {"exc"} \cup ErrKinds)
  ELSE IF v.v = "silent" THEN {"timeout"} ELSE ErrKinds

RetIO(s, e) ==
  LET c == s.call IN
  IF ~Legal(c) THEN (IF e.kind \notin ErrKinds THEN {"ret.accepted"} ELSE {})
  ELSE IF s.stat = "fail"
  THEN (IF e.kind = "ok" THEN {"ret.okfail"}
        ELSE IF e.kind = "other" THEN {"ret.untyped"}
        ELSE IF e.kind \notin FailKinds(s.cfg.via, s.ver) THEN {"ret.kind"} ELSE {})
       \cup (IF s.ver.v = "exc" /\ e.kind = "exc" /\ s.ver.code \notin ToSet(e.codes)
             THEN {"ret.code"} ELSE {})
  ELSE IF s.stat = "maybe" /\ e.kind \in ErrKinds THEN {}
  ELSE IF e.kind = "other" THEN {"ret.untyped"}
  ELSE IF e.kind # "ok" THEN {"ret.refused"}
  ELSE (IF s.done # c.cnt THEN {"ret.incomplete"} ELSE {})
       \cup (IF c.op = "read" /\ e.data # s.got THEN {"ret.data"} ELSE {})
       \cup (IF c.op = "read" /\ e.data = s.got /\ s.done = c.cnt /\ ~e.forged
                /\ e.data # MemBytes(s, c.fc, c.addr, c.cnt)
             THEN {"harness.memory"} ELSE {})

(* the explicitly opened connection after the call has ended               *)
ExplAfter(s, e) ==
  IF s.call.op = "connect"
  THEN IF s.conn = "ok" /\ Cardinality(OpenSocks(s)) = 1 THEN CHOOSE k \in OpenSocks(s) : TRUE ELSE 0
  ELSE IF s.call.op \in {"disconnect", "close"} THEN 0
  ELSE IF s.expl = 0 THEN 0
  ELSE IF s.expl \in s.taint THEN 0
  ELSE IF s.stat = "maybe" \/ ~s.ver.sure THEN (IF s.expl \in OpenSocks(s) THEN s.expl ELSE 0)
  ELSE s.expl

RetConn(s, e) ==
  IF s.cfg.tp # "tcp" THEN {}
  ELSE IF s.call.op = "connect"
  THEN (IF s.fresh = 0 THEN {"conn.none"} ELSE {})
       \cup (IF s.conn = "ok" /\ e.kind # "ok" THEN {"ret.refused"} ELSE {})
       \cup (IF s.conn # "ok" /\ e.kind \notin ErrKinds THEN {"conn.unreported"} ELSE {})
       \cup (IF s.conn = "ok" /\ Cardinality(OpenSocks(s)) # 1 THEN {"conn.leak"} ELSE {})
       \cup (IF s.conn # "ok" /\ OpenSocks(s) # {} THEN {"conn.leak"} ELSE {})
  ELSE LET x == ExplAfter(s, e) IN
       (IF OpenSocks(s) \ {x} # {} THEN {"conn.leak"} ELSE {})
       \cup (IF OpenSocks(s) \cap s.taint # {} THEN {"conn.kept"} ELSE {})
       \cup (IF x # 0 /\ x \notin OpenSocks(s) THEN {"conn.dropped"} ELSE {})
       \cup (IF ~IsIO(s.call.op) /\ e.kind # "ok" THEN {"ret.refused"} ELSE {})

(* tracing: every request transmitted and every complete reply, in order   *)
RECURSIVE TraceFits(_, _)
TraceFits(want, seen) ==
  IF want = <<>> THEN seen = <<>>
  ELSE LET w == want[1] IN
    \/ /\ seen # <<>> /\ seen[1].d = w.d /\ w.addr \in ToSet(seen[1].nums)
       /\ IF w.must THEN seen[1].b = w.b ELSE IsPrefix(seen[1].b, w.b)
       /\ TraceFits(Tail(want), Tail(seen))
    \/ /\ ~w.must
       /\ TraceFits(Tail(want), seen)
RetTrace(s, e) ==
  IF s.cfg.trace THEN (IF TraceFits(s.txrx, e.trc) THEN {} ELSE {"trace.text"})
  ELSE (IF e.trc # <<>> THEN {"trace.unasked"} ELSE {})

RetClauses(s, e) ==
  IF ~s.in THEN {"harness.ret"}
  ELSE (IF e.kind = "hang" THEN {"ret.hang"} ELSE {})
       \cup (IF IsIO(s.call.op) THEN RetIO(s, e) ELSE {})
       \cup RetConn(s, e) \cup RetTrace(s, e)

Clauses(s, e) ==
  CASE e.e = "call" -> CallClauses(s, e)
    [] e.e = "new" -> NewClauses(s, e)
    [] e.e = "open" -> OpenClauses(s, e)
    [] e.e = "closed" -> {}
    [] e.e = "send" -> SendClauses(s, e)
    [] e.e = "ret" -> RetClauses(s, e)
    [] OTHER -> {"harness.event"}

-----------------------------------------------------------------------------
SendStep(s, e) ==
  LET q == e.req
      v == e.ver
      m == IF e.ap /\ q.fc = WriteMultiple THEN StoreData(s.mem, q.addr, q.data) ELSE s.mem
      tx == <<[d |-> "tx", b |-> e.b, addr |-> q.addr, must |-> e.ok]>>
            \o (IF e.ok /\ e.rep # <<>>
                THEN <<[d |-> "rx", b |-> e.rep, addr |-> q.addr, must |-> v.v \in {"ok", "exc"} /\ v.sure]>>
                ELSE <<>>)
      n == [s EXCEPT !.mem = m, !.sent = @ + 1, !.txrx = @ \o tx] IN
  IF ~e.ok \/ v.v \in {"silent", "bad"}
  THEN [n EXCEPT !.stat = "fail", !.ver = IF e.ok THEN v ELSE [NoVerdict EXCEPT !.v = "bad"],
                 !.taint = @ \cup {e.k}]
  ELSE IF v.v = "exc"
  THEN [n EXCEPT !.stat = "fail", !.ver = v]
  ELSE [n EXCEPT !.done = @ + q.cnt, !.got = @ \o v.data,
                 !.stat = IF v.sure THEN @ ELSE "maybe"]

Step(s, e) ==
  CASE e.e = "call" ->
         [s EXCEPT !.in = TRUE, !.call = [x \in DOMAIN e \ {"e"} |-> e[x]], !.done = 0, !.got = <<>>,
                   !.stat = "run", !.ver = NoVerdict, !.sent = 0, !.fresh = 0, !.conn = "none",
                   !.txrx = <<>>]
    [] e.e = "new" -> [s EXCEPT !.socks = @ @@ (e.k :> "new"), !.fresh = @ + 1]
    [] e.e = "open" ->
         IF e.ok THEN [s EXCEPT !.socks[e.k] = "open", !.conn = "ok", !.cto = e.to]
         ELSE [s EXCEPT !.conn = "fail", !.stat = "fail", !.ver = [NoVerdict EXCEPT !.v = "bad"]]
    [] e.e = "closed" -> [s EXCEPT !.socks[e.k] = "closed"]
    [] e.e = "send" -> SendStep(s, e)
    [] e.e = "ret" -> [s EXCEPT !.in = FALSE, !.expl = ExplAfter(s, e)]
    [] OTHER -> s
=============================================================================
