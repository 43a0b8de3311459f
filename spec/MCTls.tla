-------------------------------- MODULE MCTls --------------------------------
(***************************************************************************)
(* A TCP client's way of connecting, with every configuration and every     *)
(* server, against the contract.  Mut plants a design error.                *)
(***************************************************************************)
EXTENDS Tls, SequencesExt, Json
CONSTANTS Depth, Mut, Record

VARIABLES s, bad, cur, nk, n, script
vars == <<s, bad, cur, nk, n, script>>
(* cur: the connection in use, or 0                                        *)

Cfgs ==
  {c \in [tls : BOOLEAN, ca : {"~", "site", "other"}, sysca : {"~", "site"}, mine : {"alice", "mallory", "missing", "mixed"},
          skip : BOOLEAN, srv : {"tls", "plain", "mute", "drop", "refuse"}, cert : DOMAIN CertOf, mutual : BOOLEAN,
          via : {"modbus", "client", "sunspec"}] :
     /\ (c.srv # "tls" => c.cert = "good" /\ ~c.mutual /\ c.sysca = "~")
     /\ (c.via # "modbus" => c.sysca = "~")
     /\ (~c.tls => c.ca = "site" /\ c.sysca = "~" /\ c.mine = "alice" /\ ~c.skip /\ c.cert = "good" /\ c.via # "client")}

Init == /\ \E c \in Cfgs : s = InitState(c @@ [unit |-> 7, fill |-> 0])
        /\ bad = {} /\ cur = 0 /\ nk = 0 /\ n = 0 /\ script = <<>>

Emit(es) ==
  LET r == FoldLeft(LAMBDA acc, e : IF acc.bad # {} THEN acc
                                    ELSE [bad |-> Clauses(acc.s, e), s |-> Step(acc.s, e)],
                    [bad |-> {}, s |-> s], es) IN
  /\ bad = {} /\ n < Depth /\ n' = n + 1 /\ bad' = r.bad /\ s' = r.s

cfg == s.cfg
(* the client's own verification                                           *)
Verifies ==
  LET c == CertOf[cfg.cert]
      roots == Authorities(cfg) \cup (IF Mut = "alsosystem" THEN {cfg.sysca} \ {"~"} ELSE {}) IN
  IF Mut = "noverify" THEN TRUE
  ELSE IF cfg.skip /\ Mut # "always" THEN TRUE
  ELSE /\ c.by \in roots /\ c.use /\ (c.time \/ Mut = "notime") /\ (c.name \/ Mut = "noname")

(* connecting: the events on connection k, whether it is usable, and        *)
(* whether the client then holds it                                        *)
Connect(k) ==
  LET open == <<[e |-> "open", k |-> k]>>
      hello == <<[e |-> "hello", k |-> k, clear |-> Mut = "hello"]>>
      eof == IF Mut = "leak" THEN <<>> ELSE <<[e |-> "eof", k |-> k]>>
      shake(ok) == <<[e |-> "shake", k |-> k, ok |-> ok,
                      who |-> IF ok /\ cfg.mutual /\ Mut # "nocert" THEN cfg.mine ELSE ""]>> IN
  IF cfg.tls /\ ~Equipped(cfg) THEN [ev |-> <<>>, ok |-> FALSE]
  ELSE IF cfg.srv = "refuse" THEN [ev |-> <<>>, ok |-> FALSE]
  ELSE IF ~cfg.tls THEN [ev |-> open, ok |-> TRUE]
  ELSE IF cfg.srv # "tls" THEN [ev |-> open \o hello \o eof, ok |-> FALSE]
  ELSE IF ~Verifies THEN
       IF Mut = "fallback" THEN [ev |-> open \o hello \o shake(FALSE), ok |-> TRUE]
       ELSE [ev |-> open \o hello \o shake(FALSE) \o eof, ok |-> FALSE]
  ELSE IF ~Welcome(cfg) THEN [ev |-> open \o hello \o shake(FALSE) \o eof, ok |-> FALSE]
  ELSE [ev |-> open \o hello \o (IF Mut = "early" THEN <<>> ELSE shake(TRUE)), ok |-> TRUE]

Plans == {"ok", "silent", "close", "exc", "cut"}
Req(k) == [e |-> "req", k |-> k, b |-> <<0, 0, 0, 0>> \o Frame(s, 3, 5, 1, <<>>)]
Ret(kind, data) == <<[e |-> "ret", kind |-> kind, data |-> data]>>
Say(c) == script' = IF Record THEN Append(script, c) ELSE script

Read ==
  \E plan \in Plans :
    LET k == IF cur # 0 THEN cur ELSE nk + 1
        call == [e |-> "call", op |-> "read", addr |-> 5, cnt |-> 1, data |-> <<>>, plan |-> plan]
        co == IF cur # 0 THEN [ev |-> <<>>, ok |-> TRUE] ELSE Connect(k)
        clear == IF ~cfg.tls THEN <<[e |-> "hello", k |-> k, clear |-> TRUE]>> ELSE <<>>
        eof == <<[e |-> "eof", k |-> k]>>
        works == cfg.srv = (IF cfg.tls THEN "tls" ELSE "plain")
        answered == works /\ plan \in {"ok", "exc"} IN
    /\ cfg.via # "sunspec"
    /\ Say([op |-> "read", cnt |-> 1, plan |-> plan])
    /\ nk' = IF cur # 0 THEN nk ELSE nk + 1
    /\ IF ~co.ok
       THEN Emit(<<call>> \o co.ev \o Ret("err", <<>>)) /\ UNCHANGED cur
       ELSE LET ask == IF works THEN (IF cur = 0 THEN clear ELSE <<>>) \o <<Req(k)>>
                       ELSE IF cur = 0 /\ cfg.srv # "drop" THEN clear ELSE <<>>
                keep == cur # 0 /\ answered IN
            /\ Emit(<<call>> \o co.ev \o ask \o (IF keep THEN <<>> ELSE eof)
                    \o Ret(IF ~answered THEN "err" ELSE IF plan = "ok" THEN "ok" ELSE IF cfg.via = "modbus" THEN "exc" ELSE "err",
                           IF plan = "ok" THEN RegBytes(s, 5, 1) ELSE <<>>))
            /\ cur' = IF keep THEN cur ELSE 0

Open ==
  LET k == nk + 1
      co == Connect(k)
      old == IF cur # 0 THEN <<[e |-> "eof", k |-> cur]>> ELSE <<>> IN
  /\ cfg.via = "modbus"
  /\ Say([op |-> "connect"])
  /\ nk' = k
  /\ Emit(<<[e |-> "call", op |-> "connect", addr |-> 0, cnt |-> 0, data |-> <<>>, plan |-> "ok"]>> \o old \o co.ev
          \o Ret(IF co.ok THEN "ok" ELSE "err", <<>>))
  /\ cur' = IF co.ok THEN k ELSE 0

Close ==
  /\ cfg.via # "sunspec" /\ Say([op |-> "close"])
  /\ Emit(<<[e |-> "call", op |-> "close", addr |-> 0, cnt |-> 0, data |-> <<>>, plan |-> "ok"]>>
          \o (IF cur # 0 THEN <<[e |-> "eof", k |-> cur]>> ELSE <<>>) \o Ret("ok", <<>>))
  /\ cur' = 0 /\ UNCHANGED nk

Scan ==
  LET k == nk + 1
      co == Connect(k)
      works == cfg.srv = (IF cfg.tls THEN "tls" ELSE "plain") IN
  /\ cfg.via = "sunspec" /\ Say([op |-> "scan", plan |-> "ok"])
  /\ nk' = k /\ UNCHANGED cur
  /\ Emit(<<[e |-> "call", op |-> "scan", addr |-> 0, cnt |-> 0, data |-> <<>>, plan |-> "ok"]>> \o co.ev
          \o (IF ~co.ok THEN Ret("err", <<>>)
              ELSE (IF works THEN (IF cfg.tls THEN <<>> ELSE <<[e |-> "hello", k |-> k, clear |-> TRUE]>>) \o <<Req(k), Req(k)>>
                    ELSE <<>>)
                   \o <<[e |-> "eof", k |-> k]>> \o (IF works THEN Ret("ok", <<83, 117, 110, 83>>) ELSE Ret("err", <<>>))))

Next == Read \/ Open \/ Close \/ Scan
Spec == Init /\ [][Next]_vars
NoViolation == bad = {}
PrintScripts == (Record /\ n = Depth) =>
  PrintT("SCRIPT " \o ToJson([cfg |-> [x \in DOMAIN s.cfg \ {"unit", "fill"} |-> s.cfg[x]], calls |-> script]))
=============================================================================
