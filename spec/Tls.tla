--------------------------------- MODULE Tls ---------------------------------
(***************************************************************************)
(* Modbus TCP connections and Modbus/TCP Security: when a client may talk   *)
(* to a server, what it may transmit and what it must present.             *)
(*                                                                         *)
(* cfg: what the user configured                                           *)
(*   tls, ca ("~": the system's authorities), mine (own certificate), skip *)
(*   (verification off), sysca (the authorities of the system), unit       *)
(* and the server that is there                                            *)
(*   srv: tls, plain, mute, drop, refuse; cert: its certificate;           *)
(*   mutual: it demands a certificate of the client; fill: its registers   *)
(*                                                                         *)
(* Events (those of connection k as the server sees them):                 *)
(*   call    the user reads, writes, connects, closes or opens a device    *)
(*   open    connection k arrives                                          *)
(*   hello   the first byte on k; clear: it is not of a TLS handshake       *)
(*   shake   the TLS handshake on k ends; who: the client's name           *)
(*   req     a request arrives on k                                        *)
(*   eof     the client has closed k       hangup  the server has          *)
(*   ret     the call ends                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, ModbusFrames

(* server certificates: who signed, right name, in its time, for servers   *)
CertOf == [good    |-> [by |-> "site",  name |-> TRUE,  time |-> TRUE,  use |-> TRUE],
           name    |-> [by |-> "site",  name |-> FALSE, time |-> TRUE,  use |-> TRUE],
           expired |-> [by |-> "site",  name |-> TRUE,  time |-> FALSE, use |-> TRUE],
           future  |-> [by |-> "site",  name |-> TRUE,  time |-> FALSE, use |-> TRUE],
           usage   |-> [by |-> "site",  name |-> TRUE,  time |-> TRUE,  use |-> FALSE],
           foreign |-> [by |-> "other", name |-> TRUE,  time |-> TRUE,  use |-> TRUE],
           ss      |-> [by |-> "self",  name |-> FALSE, time |-> TRUE,  use |-> TRUE]]

Authorities(cfg) == IF cfg.ca # "~" THEN {cfg.ca} ELSE IF cfg.sysca # "~" THEN {cfg.sysca} ELSE {}
Chain(cfg) == LET c == CertOf[cfg.cert] IN c.by \in Authorities(cfg) /\ c.time /\ c.use
Genuine(cfg) == Chain(cfg) /\ CertOf[cfg.cert].name
(* the client may talk to this server                                      *)
Trusted(cfg) == cfg.skip \/ Genuine(cfg)
(* the client has what it needs to present itself                          *)
Equipped(cfg) == cfg.mine \in {"alice", "mallory"}
(* the server accepts this client                                          *)
Welcome(cfg) == ~cfg.mutual \/ cfg.mine = "alice"

(* a call with a well behaved reply must succeed / a request may be sent    *)
MustWork(cfg) == IF cfg.tls THEN cfg.srv = "tls" /\ Trusted(cfg) /\ Equipped(cfg) /\ Welcome(cfg)
                 ELSE cfg.srv = "plain"
MaySend(cfg) == cfg.tls => (cfg.srv = "tls" /\ Trusted(cfg) /\ Equipped(cfg) /\ Welcome(cfg))

-----------------------------------------------------------------------------
InitState(cfg) ==
  [cfg |-> cfg, in |-> FALSE, call |-> [op |-> "none"],
   conns |-> << >>,        \* connection -> [shaken, end]
   expl |-> 0,             \* connection the user opened, or 0
   fresh |-> {},           \* connections of this call
   reqs |-> <<>>,          \* requests of this call
   mem |-> << >>]

Live(s) == {k \in DOMAIN s.conns : s.conns[k].end = ""}

Reg(s, a) == IF a \in DOMAIN s.mem THEN s.mem[a]
             ELSE IF a = 40000 THEN 21365 ELSE IF a = 40001 THEN 28243 ELSE IF a = 40002 THEN 65535
             ELSE IF a = 40003 THEN 0 ELSE (a * 7 + s.cfg.fill) % 65536
RegBytes(s, a, n) == [i \in 1..2 * n |-> LET w == Reg(s, a + (i - 1) \div 2) IN IF i % 2 = 1 THEN Hi(w) ELSE Lo(w)]

(* the request the call in progress must make                              *)
Frame(s, fc, a, n, data) ==
  LET pdu == <<fc, Hi(a), Lo(a), Hi(n), Lo(n)>> \o data IN
  <<Hi(Len(pdu) + 1), Lo(Len(pdu) + 1), s.cfg.unit>> \o pdu
Request(s) ==
  LET c == s.call IN
  IF c.op = "read" THEN Frame(s, 3, c.addr, c.cnt, <<>>)
  ELSE Frame(s, 16, c.addr, Len(c.data) \div 2, <<Len(c.data)>> \o c.data)

-----------------------------------------------------------------------------
OpenClauses(s, e) ==
  (IF ~s.in \/ s.call.op = "close" THEN {"conn.unasked"} ELSE {})
  \cup (IF s.in /\ s.call.op \in {"read", "write"} /\ s.expl # 0 THEN {"conn.needless"} ELSE {})

HelloClauses(s, e) ==
  IF s.cfg.tls THEN (IF e.clear THEN {"tls.clear"} ELSE {}) ELSE (IF ~e.clear THEN {"tls.unasked"} ELSE {})

ShakeClauses(s, e) ==
  IF ~e.ok THEN {}
  ELSE (IF e.who # (IF s.cfg.mutual THEN s.cfg.mine ELSE "") THEN {"tls.identity"} ELSE {})
       \cup (IF s.cfg.mutual /\ ~Welcome(s.cfg) THEN {"harness.welcome"} ELSE {})

ReqClauses(s, e) ==
  (IF s.cfg.tls /\ ~s.conns[e.k].shaken THEN {"tls.clear"} ELSE {})
  \cup (IF s.cfg.tls /\ ~Trusted(s.cfg) THEN {"tls.untrusted"} ELSE {})
  \cup (IF ~s.in \/ s.call.op \in {"connect", "close"} THEN {"req.unasked"}
        ELSE IF s.call.op = "scan" THEN {}
        ELSE (IF Len(s.reqs) > 0 THEN {"req.again"} ELSE {})
             \cup (IF SubSeq(e.b, 5, Len(e.b)) # Request(s) THEN {"req.bytes"} ELSE {}))
  \cup (IF s.expl # 0 /\ s.in /\ s.call.op # "connect" /\ e.k # s.expl THEN {"conn.other"} ELSE {})

ErrKinds == {"err", "timeout"}
Kinds(s) ==
  LET c == s.call
      cfg == s.cfg IN
  IF c.op = "close" THEN {"ok"}
  ELSE IF c.op = "connect"
  THEN IF MustWork(cfg) THEN {"ok"}
       ELSE IF cfg.tls THEN (IF cfg.srv = "tls" /\ Trusted(cfg) /\ Equipped(cfg) THEN {"ok", "err"} ELSE {"err"})
       ELSE IF cfg.srv = "refuse" THEN {"err"} ELSE {"ok"}
  ELSE IF ~MustWork(cfg) THEN ErrKinds
  ELSE IF c.plan \in {"ok", "frag"} THEN {"ok"}
  ELSE IF c.plan = "exc" THEN (IF cfg.via = "modbus" THEN {"exc"} ELSE {"err"})
  ELSE ErrKinds

(* the call did what it had to                                             *)
Result(s, e) ==
  CASE s.call.op = "read" -> e.data = RegBytes(s, s.call.addr, s.call.cnt)
    [] s.call.op = "scan" -> e.data = <<83, 117, 110, 83>>
    [] OTHER -> TRUE

ExplAfter(s, e) ==
  LET c == s.call IN
  IF c.op = "connect" THEN IF e.kind = "ok" /\ Cardinality(s.fresh) = 1 THEN CHOOSE k \in s.fresh : TRUE ELSE 0
  ELSE IF c.op = "close" THEN 0
  ELSE IF s.expl # 0 /\ (e.kind = "ok" \/ (c.plan = "exc" /\ Len(s.reqs) > 0)) THEN s.expl ELSE 0

RetClauses(s, e) ==
  (IF e.kind = "hang" THEN {"ret.hang"} ELSE IF e.kind = "other" THEN {"ret.untyped"}
   ELSE IF e.kind \notin Kinds(s)
   THEN {IF "ok" \in Kinds(s) THEN "tls.refused" ELSE IF e.kind = "ok" THEN "tls.accepted" ELSE "ret.kind"} ELSE {})
  \cup (IF e.kind = "ok" /\ ~Result(s, e) THEN {"ret.data"} ELSE {})
  \cup (IF e.kind = "ok" /\ s.call.op \in {"read", "write"} /\ Len(s.reqs) # 1 THEN {"ret.norequest"} ELSE {})
  \cup (IF s.call.op = "connect" /\ e.kind = "ok" /\ Cardinality(s.fresh) # 1 THEN {"conn.none"} ELSE {})
  \cup (LET x == ExplAfter(s, e) IN
        (IF Live(s) \ {x} # {}
         THEN {"conn.leak"} ELSE {})
        \cup (IF x # 0 /\ s.conns[x].end = "eof" THEN {"conn.dropped"} ELSE {}))

Clauses(s, e) ==
  CASE e.e = "call" -> IF s.in THEN {"harness.nested"} ELSE {}
    [] e.e = "open" -> OpenClauses(s, e)
    [] e.e = "hello" -> HelloClauses(s, e)
    [] e.e = "shake" -> ShakeClauses(s, e)
    [] e.e = "req" -> ReqClauses(s, e)
    [] e.e \in {"eof", "hangup"} -> {}
    [] e.e = "ret" -> IF s.in THEN RetClauses(s, e) ELSE {"harness.ret"}
    [] OTHER -> {"harness.event"}

Stored(s) ==
  LET c == s.call
      n == Len(c.data) \div 2 IN
  [a \in (DOMAIN s.mem) \cup (c.addr..c.addr + n - 1) |->
     IF a \in c.addr..c.addr + n - 1 THEN W(c.data, 2 * (a - c.addr) + 1) ELSE s.mem[a]]

Step(s, e) ==
  CASE e.e = "call" -> [s EXCEPT !.in = TRUE, !.call = e, !.fresh = {}, !.reqs = <<>>]
    [] e.e = "open" -> [s EXCEPT !.conns = (e.k :> [shaken |-> FALSE, end |-> ""]) @@ @, !.fresh = @ \cup {e.k}]
    [] e.e = "shake" -> [s EXCEPT !.conns[e.k].shaken = e.ok]
    [] e.e = "req" ->
         LET t == [s EXCEPT !.reqs = Append(@, e.b)] IN
         IF s.call.op = "write" /\ s.call.plan \in {"ok", "frag", "cut"}
         THEN [t EXCEPT !.mem = Stored(s)] ELSE t
    [] e.e \in {"eof", "hangup"} -> [s EXCEPT !.conns[e.k].end = e.e]
    [] e.e = "ret" -> [s EXCEPT !.in = FALSE, !.expl = ExplAfter(s, e)]
    [] OTHER -> s
=============================================================================
