-------------------------------- MODULE MCScan --------------------------------
(***************************************************************************)
(* The scan of a SunSpec client: probing the base addresses, then walking   *)
(* the model chain one header at a time, with requests that may fail and a  *)
(* callback that may refuse.  Mut plants a design error.                     *)
(***************************************************************************)
EXTENDS SunSpec, Json
CONSTANTS Scans, Faults, Mut, Record

Pnt(id, off, t) == [id |-> id, off |-> off, t |-> t, len |-> 1, sf |-> [k |-> "none", v |-> 0, n |-> ""]]
Defs == << [id |-> 1, len |-> 2, name |-> "one", fl |-> 2, fp |-> <<Pnt("A", 0, "int16"), Pnt("B", 1, "uint16")>>,
            rep |-> FALSE, rl |-> 0, rp |-> <<>>, rn |-> "repeating"],
           [id |-> 2, len |-> 2, name |-> "two", fl |-> 1, fp |-> <<Pnt("C", 0, "uint16")>>,
            rep |-> TRUE, rl |-> 1, rp |-> <<Pnt("D", 0, "uint16")>>, rn |-> "row"] >>
M == <<21365, 28243>>
Seg(a, w) == [a |-> a, w |-> w]
Devices == <<
  <<Seg(40000, M \o <<1, 2, 7, 8, 65535>>)>>,
  <<Seg(0, M \o <<2, 3, 7, 8, 9, 99, 1, 5, 65535>>)>>,
  <<Seg(40000, <<0, 0, 0>>), Seg(0, M \o <<65535>>), Seg(50000, M \o <<1, 2, 7, 8, 65535>>)>>,
  <<Seg(50000, M \o <<1, 2, 7, 8>>)>>,
  <<Seg(40000, M \o <<1, 2, 3, 4, 2, 1, 6, 1, 2, 0, 0, 65535>>), Seg(0, M \o <<1, 2, 3, 4, 65535>>)>>,
  <<Seg(40000, <<21365, 7, 1>>), Seg(0, <<21365, 28243>>)>>,
  <<Seg(40000, M \o <<99, 0, 2, 2, 0, 0, 65535, 0>>)>>,
  <<Seg(0, M \o <<2, 0, 1, 2, 5, 5, 65535>>)>> >>

VARIABLES s, bad, c, scans, faults, dev, script, now
vars == <<s, bad, c, scans, faults, dev, script, now>>
Idle == [pc |-> "idle", then |-> "idle", cand |-> <<>>, i |-> 1, b |-> -1, addr |-> 0, id |-> 0, len |-> 0, acc |-> <<>>, old |-> <<>>, got |-> <<>>]
Init == /\ dev \in DOMAIN Devices
        /\ s = InitState([via |-> "rtu", defs |-> Defs, segs |-> Devices[dev], maxread |-> 125])
        /\ bad = {} /\ c = Idle @@ [base |-> -1] /\ scans = 0 /\ faults = Faults /\ script = <<>> /\ now = <<>>

Emit(e) == /\ bad' = Clauses(s, e) /\ s' = Step(s, e)

Req(addr, n, ok) ==
  LET good == ok /\ Exists(s.mem, addr, n) IN
  [e |-> "req", fc |-> 3, addr |-> addr, cnt |-> n, d |-> IF good THEN BytesOf(s.mem, addr, n) ELSE <<>>, ok |-> good, ap |-> FALSE]
Outcome(ok) == /\ (~ok => faults > 0) /\ faults' = IF ok THEN faults ELSE faults - 1
               /\ now' = Append(now, IF ok THEN "ok" ELSE "lost")

Call == /\ c.pc = "idle" /\ scans < Scans
        /\ \E fresh \in (IF scans = 0 THEN {TRUE} ELSE BOOLEAN) :
             /\ Emit([e |-> "call", op |-> "scan", fresh |-> fresh, asks |-> TRUE, delay |-> 5])
             /\ LET base == IF fresh THEN -1 ELSE c.base
                    all == IF Mut = "order" THEN <<0, 40000, 50000>> ELSE Default IN
                c' = [c EXCEPT !.pc = "probe", !.cand = IF base = -1 THEN all ELSE <<base>>, !.i = 1, !.b = -1, !.base = base,
                               !.acc = IF Mut = "keep" THEN c.old ELSE <<>>]
             /\ script' = Append(script, [op |-> "scan", fresh |-> fresh])
        /\ scans' = scans + 1 /\ now' = <<>> /\ UNCHANGED <<faults, dev>>

Words(d) == WordsOf(d)
Probe == /\ c.pc = "probe"
         /\ IF c.i > Len(c.cand)
            THEN /\ c' = [c EXCEPT !.pc = "fail"] /\ UNCHANGED <<s, bad, faults, now>>
            ELSE \E ok \in BOOLEAN :
                   LET e == Req(c.cand[c.i], 3, ok)
                       w == Words(e.d)
                       hit == e.ok /\ w[1] = M[1] /\ (w[2] = M[2] \/ Mut = "marker") IN
                   /\ Outcome(ok) /\ Emit(e)
                   /\ c' = IF hit THEN [c EXCEPT !.pc = "id", !.b = c.cand[c.i], !.base = c.cand[c.i],
                                                 !.addr = c.cand[c.i] + 2, !.id = w[3]]
                           ELSE IF ~ok /\ Mut = "giveup" THEN [c EXCEPT !.pc = "fail"]
                           ELSE [c EXCEPT !.i = @ + 1, !.pc = IF Mut = "rush" THEN "probe" ELSE "nap", !.then = "probe"]
         /\ UNCHANGED <<scans, dev, script>>

HaveId == /\ c.pc = "id"
          /\ c' = [c EXCEPT !.pc = IF c.id = 65535 /\ Mut # "beyond" THEN "done" ELSE "len"]
          /\ UNCHANGED <<s, bad, scans, faults, dev, script, now>>
ReadLen == /\ c.pc = "len"
           /\ \E ok \in BOOLEAN :
                LET e == Req(c.addr + 1, 1, ok) IN
                /\ Outcome(ok) /\ Emit(e)
                /\ c' = IF c.id = 65535 THEN [c EXCEPT !.pc = "done"]
                        ELSE IF ~e.ok THEN [c EXCEPT !.pc = IF Mut = "swallow" THEN "done" ELSE "fail"]
                        ELSE [c EXCEPT !.pc = "ask", !.len = Words(e.d)[1]]
           /\ UNCHANGED <<scans, dev, script>>
Ask == /\ c.pc = "ask" /\ (Mut = "once" => Len(c.acc) = 0)
       /\ \E cont \in BOOLEAN :
            /\ (~cont => faults > 0) /\ faults' = IF cont THEN faults ELSE faults - 1
            /\ Emit([e |-> "prog", cont |-> cont]) /\ now' = Append(now, IF cont THEN "go" ELSE "stop")
            /\ c' = IF ~cont /\ Mut # "deaf" THEN [c EXCEPT !.pc = "fail"]
                    ELSE [c EXCEPT !.pc = "next",
                                   !.acc = IF Mut = "skip" /\ DefOf(s, c.id) = 0 THEN @
                                           ELSE Append(@, [id |-> c.id, addr |-> c.addr + 2, len |-> c.len]),
                                   !.addr = @ + (IF Mut = "step" THEN (IF c.len = 0 THEN 4 ELSE c.len + 2) ELSE c.len + 2)]
       /\ UNCHANGED <<scans, dev, script>>
Skip == /\ c.pc = "ask" /\ Mut = "once" /\ Len(c.acc) > 0
        /\ c' = [c EXCEPT !.pc = "next", !.acc = Append(@, [id |-> c.id, addr |-> c.addr + 2, len |-> c.len]), !.addr = @ + c.len + 2]
        /\ UNCHANGED <<s, bad, scans, faults, dev, script, now>>
ReadId == /\ c.pc = "next"
          /\ \E ok \in BOOLEAN :
               LET e == Req(c.addr, 1, ok) IN
               /\ Outcome(ok) /\ Emit(e)
               /\ c' = IF ~e.ok THEN [c EXCEPT !.pc = IF Mut = "swallow" THEN "done" ELSE "fail"]
                       ELSE [c EXCEPT !.pc = IF Mut = "hurry" THEN "id" ELSE "nap", !.then = "id", !.id = Words(e.d)[1]]
          /\ UNCHANGED <<scans, dev, script>>
Nap == /\ c.pc = "nap" /\ Emit([e |-> "nap", d |-> IF Mut = "doze" THEN 4 ELSE 5]) /\ c' = [c EXCEPT !.pc = c.then]
       /\ UNCHANGED <<scans, faults, dev, script, now>>

Seen(m) == [id |-> m.id, addr |-> m.addr, len |-> m.len, err |-> ~m.ok, blocks |-> m.blocks]
Blank(ms) == [i \in DOMAIN ms |-> [j \in DOMAIN ms[i].blocks |-> [k \in DOMAIN ms[i].blocks[j].pts |-> [b |-> NoVal, v |-> NoVal]]]]
Ret == /\ c.pc \in {"done", "fail"}
       /\ LET good == c.pc = "done"
              ms == [i \in DOMAIN c.acc |-> ModelOf(s, c.acc[i])]
              base == IF ~good /\ Mut = "forget" THEN 40001 ELSE c.base IN
          /\ Emit([e |-> "ret", kind |-> IF good THEN "ok" ELSE "sserr", open |-> IF ~good /\ Mut = "leak" THEN 1 ELSE 0,
                   base |-> base, lay |-> IF good THEN [i \in DOMAIN ms |-> Seen(ms[i])] ELSE <<>>, bymodel |-> TRUE,
                   val |-> IF good THEN Blank(ms) ELSE <<>>])
          /\ c' = [c EXCEPT !.pc = "idle", !.base = base, !.old = IF good THEN c.acc ELSE <<>>]
       /\ script' = [script EXCEPT ![Len(script)] = [how |-> now] @@ @]
       /\ UNCHANGED <<scans, faults, dev, now>>

Next == bad = {} /\ (Call \/ Probe \/ HaveId \/ ReadLen \/ Ask \/ ReadId \/ Nap \/ Skip \/ Ret)
Spec == Init /\ [][Next]_vars
\* without the record of what happened, histories with the same outcome are one state
View == <<s, bad, c, scans, faults, dev>>
NoViolation == bad = {}
(* after a scan without a fault the device is known completely               *)
Repeatable == (c.pc = "idle" /\ bad = {} /\ scans > 0 /\ s.scanned) =>
              [i \in DOMAIN c.old |-> c.old[i]] = Chain(s.mem, s.base).models
PrintScripts == (Record /\ scans = Scans /\ c.pc = "idle") => PrintT("SCRIPT " \o ToJson([segs |-> Devices[dev], defs |-> Defs, calls |-> script]))
=============================================================================
