---------------------------- MODULE MCModbusMap ----------------------------
(***************************************************************************)
(* The block-walking algorithm of a map (reading and writing block by      *)
(* block, adding at the end) against flat register memory.                 *)
(***************************************************************************)
EXTENDS ModbusMap, Json
CONSTANTS Depth, MaxOff, Mut, Record

VARIABLES s, im, bad, n, script
vars == <<s, im, bad, n, script>>
Base == 10
Start == [EmptyMap EXCEPT !.base = Base]
Init == /\ s = [maps |-> ("m" :> Start)] /\ im = Start /\ bad = {} /\ n = 0 /\ script = <<>>

(* read count registers from offset o, as the implementation walks          *)
RECURSIVE WalkRead(_, _, _, _)
WalkRead(blk, k, o, cnt) ==
  IF k > Len(blk) \/ cnt = 0 THEN <<>>
  ELSE LET r == blk[k]
           end == r.off + r.cnt IN
       IF o >= r.off /\ o < end
       THEN LET c == IF cnt < end - o THEN cnt ELSE end - o IN
            SubSeq(r.b, 2 * (o - r.off) + 1, 2 * (o - r.off + c)) \o WalkRead(blk, k + 1, o + c, cnt - c)
       ELSE WalkRead(blk, k + 1, o, cnt)

Patch(b, at, d) == [i \in DOMAIN b |-> IF i > at /\ i <= at + Len(d) THEN d[i - at] ELSE b[i]]
RECURSIVE WalkWrite(_, _, _, _, _)
WalkWrite(blk, k, o, d, at) ==
  IF k > Len(blk) \/ Len(d) - at <= 0 THEN [blk |-> blk, left |-> Len(d) - at]
  ELSE LET r == blk[k]
           end == r.off + r.cnt IN
       IF o >= r.off /\ o < end
       THEN LET want == (Len(d) - at) \div 2
                c == IF want < end - o THEN want ELSE end - o
                from == IF Mut = "step" THEN at \div 2 ELSE at IN
            WalkWrite([blk EXCEPT ![k] = [@ EXCEPT !.b = Patch(@, 2 * (o - r.off), SubSeq(d, from + 1, from + 2 * c))]],
                      k + 1, o + c, d, at + 2 * c)
       ELSE WalkWrite(blk, k + 1, IF Mut = "gap" THEN r.off ELSE o, d, at)

Emit(e) == /\ bad = {} /\ n < Depth /\ n' = n + 1 /\ bad' = Clauses(s, e) /\ s' = Step(s, e)
Note(x) == script' = IF Record THEN Append(script, x) ELSE script
Data(o, c) == [i \in 1..2 * c |-> 16 * (n + 1) + ((o + i) % 16)]

Add == \E o \in 0..MaxOff, c \in 1..2 :
  LET ok == o >= Next1(im.blk)
      new == IF ok THEN [im EXCEPT !.blk =
                 AddRegs(@, o, c, Zeros(2 * c), "rw")] ELSE im IN
  /\ Emit([e |-> "add", m |-> "m", via |-> "map", addr |-> -1, off |-> o, n |-> c, acc |-> "rw",
           kind |-> IF ok THEN "ok" ELSE "maperr", obs |-> new])
  /\ im' = new /\ Note([op |-> "add", off |-> o, n |-> c])

Put1 == \E o \in 0..MaxOff :
  LET b == <<n + 1, o>>
      new == [im EXCEPT !.blk = Append(@, [off |-> o, cnt |-> 1, acc |-> "r", b |-> b])] IN
  /\ o >= Next1(im.blk)
  /\ Emit([e |-> "put", m |-> "m", off |-> o, b |-> b, acc |-> "r", kind |-> "ok", obs |-> new])
  /\ im' = new /\ Note([op |-> "put", off |-> o, n |-> 1])

Read == \E o \in -1..MaxOff, c \in 0..3 :
  LET d == WalkRead(im.blk, 1, o, c)
      ok == Mut = "short" \/ Len(d) = 2 * c IN
  /\ Emit([e |-> "read", m |-> "m", via |-> "map", addr |-> Base + o, n |-> c, op |-> 0,
           kind |-> IF ok THEN "ok" ELSE "maperr", data |-> IF ok THEN d ELSE <<>>, obs |-> im])
  /\ UNCHANGED im /\ Note([op |-> "read", off |-> o, n |-> c])

Write == \E o \in -1..MaxOff, c \in 0..3 :
  LET d == Data(o, c)
      w == WalkWrite(im.blk, 1, o, d, 0)
      new == [im EXCEPT !.blk = w.blk] IN
  /\ Emit([e |-> "write", m |-> "m", via |-> "map", addr |-> Base + o, data |-> d,
           kind |-> IF w.left > 0 THEN "maperr" ELSE "ok", obs |-> new])
  /\ im' = new /\ Note([op |-> "write", off |-> o, n |-> c])

Next == Add \/ Put1 \/ Read \/ Write
Spec == Init /\ [][Next]_vars
NoViolation == bad = {}
Ascending == \A k \in 1..Len(im.blk) - 1 : im.blk[k].off + im.blk[k].cnt <= im.blk[k + 1].off
PrintScripts == (Record /\ n = Depth) => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
