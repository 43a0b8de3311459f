----------------------------- MODULE MCTransport -----------------------------
(***************************************************************************)
(* A model of the client's algorithm (chunking, connection handling,       *)
(* discarding of stale input, reply checks) composed with a device and a   *)
(* network that may refuse, answer, stay silent, answer late, answer       *)
(* wrongly or fail.  Every step of it is an event of the contract in       *)
(* Transport; TLC checks that no reachable step breaks a clause.           *)
(* Mut # "none" plants a design error, which must be found.                *)
(* Record = TRUE keeps the environment's choices and prints every complete *)
(* behaviour as a test script for the implementation.                      *)
(***************************************************************************)
EXTENDS Transport, Json
CONSTANTS Tp, MaxCalls, MaxAddr, Chunk, Mut, Record, Tracing, Ops, Modes, Counts

VARIABLES s, bad, im, n, script
vars == <<s, bad, im, n, script>>

Cfg == [tp |-> Tp, unit |-> 1, max |-> Chunk, host |-> "h", port |-> 502, timeout |-> "2", trace |-> Tracing,
        fill |-> 0, pat |-> 0, via |-> "modbus"]
NoFrame == [fc |-> 0, addr |-> 0, cnt |-> 0, data |-> <<>>, exc |-> 0, bad |-> FALSE]

Init == /\ s = InitState(Cfg) /\ bad = {} /\ n = 0 /\ script = <<>>
        /\ im = [pc |-> "idle", sock |-> 0, loc |-> FALSE, off |-> 0, acc |-> <<>>, out |-> "ok", code |-> 0,
                 buf |-> <<>>, late |-> <<>>, nk |-> 0, closing |-> 0, after |-> "", trc |-> <<>>]

Emit(e) == /\ bad = {} /\ bad' = Clauses(s, e) /\ s' = Step(s, e)

(* write data: distinct words so that any displacement shows               *)
WData(addr, cnt, salt) == [i \in 1..2 * cnt |-> IF i % 2 = 1 THEN 200 + salt ELSE addr + (i \div 2)]

Late(b) == IF Tp = "rtu" \/ b.sock # 0 THEN b.buf \o b.late ELSE <<>>

Call ==
  /\ im.pc = "idle" /\ n < MaxCalls
  /\ \E op \in Ops, addr \in 0..MaxAddr, cnt \in Counts, fc \in {3} :
     LET io == IsIO(op)
         c == [e |-> "call", op |-> op, fc |-> IF op = "write" THEN 16 ELSE fc, addr |-> addr, cnt |-> cnt,
               data |-> IF op = "write" THEN WData(addr, cnt, n) ELSE <<>>, odd |-> FALSE, to |-> ""] IN
     /\ (~io => addr = 0 /\ cnt = 0)
     /\ (io => addr + cnt <= MaxAddr + 1)
     /\ (op \in {"connect", "disconnect"} => Tp = "tcp")
     /\ Emit(c)
     /\ n' = n + 1
     /\ script' = IF Record THEN Append(script, [op |-> op, addr |-> addr, cnt |-> cnt, modes |-> <<>>]) ELSE script
     /\ im' = [im EXCEPT
          !.pc = IF io THEN (IF Tp = "tcp" /\ im.sock = 0 THEN "new" ELSE IF cnt = 0 THEN "ret" ELSE "send")
                 ELSE IF im.sock # 0 /\ Mut # "reconnectleak" THEN "close"
                 ELSE IF op = "connect" THEN "new" ELSE "ret",
          !.closing = im.sock,
          !.after = IF op = "connect" THEN "new" ELSE "ret",
          !.loc = io /\ im.sock = 0, !.off = 0, !.acc = <<>>, !.out = "ok", !.code = 0, !.trc = <<>>,
          !.buf = Late(im), !.late = <<>>]

New == /\ im.pc = "new"
       /\ Emit([e |-> "new", k |-> im.nk + 1])
       /\ im' = [im EXCEPT !.pc = "open", !.nk = @ + 1, !.sock = im.nk + 1, !.buf = <<>>]
       /\ UNCHANGED <<n, script>>

AddMode(m) == IF Record THEN [script EXCEPT ![Len(script)].modes = Append(@, m)] ELSE script

Open == /\ im.pc = "open"
        /\ \E ok \in {TRUE} \cup (IF "connfail" \in Modes THEN {FALSE} ELSE {}) :
           /\ Emit([e |-> "open", k |-> im.sock, ok |-> ok, host |-> "h", port |-> 502, to |-> "2"])
           /\ script' = AddMode(IF ok THEN "conn" ELSE "connfail")
           /\ im' = IF ok
                    THEN [im EXCEPT !.pc = IF s.call.op = "connect" \/ s.call.cnt = 0 THEN
                                             (IF s.call.op = "connect" THEN "ret" ELSE "close") ELSE "send",
                                    !.closing = im.sock, !.after = "ret"]
                    ELSE [im EXCEPT !.out = "err", !.pc = IF Mut = "keepfailed" THEN "ret" ELSE "close",
                                    !.closing = im.sock, !.after = "ret"]
        /\ UNCHANGED n

Accepts(f, q) ==
  \/ Mut = "noval"
  \/ ~f.bad /\ f.fc = q.fc /\ (IF q.fc = 16 THEN f.addr = q.addr /\ f.cnt = q.cnt ELSE Len(f.data) = 2 * q.cnt)

(* where the call goes after its exchange failed                           *)
Failing(b, kind) ==
  LET drop == Tp = "tcp" /\ (b.loc \/ (kind # "exc" /\ Mut # "nodrop")) /\ ~(Mut = "noclose" /\ kind = "exc") IN
  [b EXCEPT !.out = IF Mut = "swallow" /\ kind = "timeout" THEN "ok" ELSE kind, !.pc = IF drop THEN "close" ELSE "ret",
            !.closing = b.sock, !.after = "ret"]

Send ==
  /\ im.pc = "send"
  /\ \E m \in Modes \ {"connfail"} :
     LET c == s.call
         left == c.cnt - im.off
         cnt == Min2(left, Chunk)
         at == IF Mut = "offset" /\ im.off > 0 THEN c.addr + im.off - 1 ELSE c.addr + im.off
         q == [fc |-> c.fc, addr |-> at, cnt |-> cnt,
               data |-> IF c.op = "write" THEN SubSeq(c.data, 2 * im.off + 1, 2 * (im.off + cnt)) ELSE <<>>]
         good == [NoFrame EXCEPT !.fc = q.fc, !.addr = q.addr, !.cnt = cnt,
                   !.data = IF c.op = "write" THEN <<>> ELSE MemBytes(s, q.fc, q.addr, cnt)]
         frame == CASE m = "ok" -> <<good>>
                    [] m = "exc" -> <<[good EXCEPT !.exc = 2]>>
                    [] m = "wrong" -> <<[good EXCEPT !.fc = 4, !.data = Append(Append(@, 9), 9)]>>
                    [] m = "bad" -> <<[good EXCEPT !.bad = TRUE]>>
                    [] OTHER -> <<>>
         ver == CASE m = "ok" -> [v |-> "ok", data |-> good.data, code |-> 0, sure |-> TRUE]
                  [] m = "exc" -> [v |-> "exc", data |-> <<>>, code |-> 2, sure |-> TRUE]
                  [] m \in {"silent", "late"} -> [NoVerdict EXCEPT !.v = "silent"]
                  [] OTHER -> [NoVerdict EXCEPT !.v = "bad"]
         stale == IF Tp = "rtu" /\ Mut # "noflush" THEN <<>> ELSE im.buf
         in == stale \o frame
         bytes == <<q.fc, q.addr, q.cnt>>
         said == IF ~Tracing THEN <<>>
                 ELSE <<[d |-> "tx", b |-> bytes, nums |-> <<q.addr>>]>>
                      \o (IF frame # <<>> /\ ~(Mut = "notrace" /\ m = "exc")
                          THEN <<[d |-> "rx", b |-> <<7>>, nums |-> <<q.addr>>]>> ELSE <<>>)
         b0 == [im EXCEPT !.trc = @ \o said, !.buf = IF in = <<>> THEN <<>> ELSE Tail(in),
                          !.late = IF m = "late" THEN Append(@, good) ELSE @] IN
     /\ (m = "sendfail" => Tp = "tcp")
     /\ Emit([e |-> "send", k |-> IF Tp = "tcp" THEN im.sock ELSE 0, req |-> q, faults |-> {}, ver |-> ver,
              ok |-> m # "sendfail", ap |-> m \in {"ok", "late"}, b |-> bytes, rep |-> IF frame = <<>> THEN <<>> ELSE <<7>>, to |-> "2"])
     /\ script' = AddMode(m)
     /\ im' =
        IF m = "sendfail" THEN Failing(b0, "err")
        ELSE IF in = <<>> THEN Failing(b0, "timeout")
        ELSE LET f == in[1] IN
          IF f.bad THEN Failing(b0, "err")
          ELSE IF f.exc # 0 THEN (IF f.fc = q.fc \/ Mut = "noval" THEN Failing([b0 EXCEPT !.code = f.exc], "exc")
                                  ELSE Failing(b0, "err"))
          ELSE IF ~Accepts(f, q) THEN Failing(b0, "err")
          ELSE LET b1 == [b0 EXCEPT !.off = @ + cnt, !.acc = @ \o f.data] IN
               IF b1.off < c.cnt THEN b1
               ELSE [b1 EXCEPT !.pc = IF b1.loc /\ Tp = "tcp" THEN "close" ELSE "ret",
                               !.closing = b1.sock, !.after = "ret"]
  /\ UNCHANGED n

Close == /\ im.pc = "close"
         /\ Emit([e |-> "closed", k |-> im.closing])
         /\ im' = [im EXCEPT !.pc = im.after, !.sock = 0, !.buf = <<>>, !.late = <<>>]
         /\ UNCHANGED <<n, script>>

Ret == /\ im.pc = "ret"
       /\ Emit([e |-> "ret", kind |-> im.out, data |-> IF im.out = "ok" THEN im.acc ELSE <<>>, codes |-> <<im.code>>,
                trc |-> im.trc, forged |-> FALSE])
       /\ im' = [im EXCEPT !.pc = "idle"]
       /\ UNCHANGED <<n, script>>

Next == Call \/ New \/ Open \/ Send \/ Close \/ Ret
Spec == Init /\ [][Next]_vars

NoViolation == bad = {}
(* global guarantees, stated on the contract state directly                *)
NoLeak == (im.pc = "idle" /\ Tp = "tcp") => OpenSocks(s) = (IF s.expl = 0 THEN {} ELSE {s.expl})
SockAgrees == (im.pc = "idle" /\ Tp = "tcp" /\ Mut = "none") => im.sock = s.expl
WrittenPrefix == \A a \in DOMAIN s.mem : a \in 0..MaxAddr

Done == im.pc = "idle" /\ n = MaxCalls
PrintScripts == (Record /\ Done) => PrintT("SCRIPT " \o ToJson([tp |-> Tp, max |-> Chunk, calls |-> script]))
=============================================================================
