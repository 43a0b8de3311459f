------------------------------- MODULE SunSpec -------------------------------
(***************************************************************************)
(* The contract of a SunSpec device client: scanning, reading, assigning    *)
(* and writing points, named access, and what faults may do.                *)
(*                                                                          *)
(* cfg = [via, defs, segs, maxread]: how the device is reached (rtu, tcp,   *)
(* mapped), the model definitions, and the registers the device has, as     *)
(* segments [a, w].  Events:                                                *)
(*   call  the user calls an operation                                      *)
(*   req   a request reaches the device: fc, addr, cnt, d (bytes read or    *)
(*         to be written), ap (the write took effect), ok (a good reply     *)
(*         went back)                                                       *)
(*   fault a connection could not be made                                   *)
(*   chg   the device changes registers by itself                           *)
(*   prog  the progress callback is called and answers                      *)
(*   nap   the call pauses, for d microseconds                              *)
(*   ret   the call ends; carries what can be seen of the device object     *)
(* A mapped device is a file: its requests are not observable.              *)
(***************************************************************************)
EXTENDS Layout, Codec

SunS == <<21365, 28243>>
EndId == 65535
Default == <<40000, 0, 50000>>

Memory(segs) == FoldLeft(LAMBDA m, g : [a \in g.a..(g.a + Len(g.w) - 1) |-> g.w[a - g.a + 1]] @@ m, << >>, segs)
SetWords(m, addr, w) == [a \in addr..(addr + Len(w) - 1) |-> w[a - addr + 1]] @@ m
WordsOf(b) == [i \in 1..Len(b) \div 2 |-> b[2 * i - 1] * 256 + b[2 * i]]
Exists(m, addr, n) == \A i \in 0..n - 1 : addr + i \in DOMAIN m
BytesOf(m, addr, n) == [i \in 1..2 * n |-> LET w == m[addr + (i - 1) \div 2] IN IF i % 2 = 1 THEN w \div 256 ELSE w % 256]

InitState(cfg) ==
  [cfg |-> cfg, mem |-> Memory(cfg.segs), off |-> FALSE,
   in |-> FALSE, call |-> [op |-> "none"],
   base |-> -1,                    \* known base address
   models |-> <<>>,                \* of the last successful scan
   vals |-> <<>>,                  \* per model, block, point: [b, k, pend]
   sfv |-> <<>>,                   \* per model, block, scale factor point: value
   scanned |-> FALSE,
   \* the call in progress
   cand |-> <<>>, probe |-> 1, found |-> -1,
   fail |-> FALSE,                 \* a request of it failed
   refused |-> FALSE,              \* the progress callback refused
   asked |-> 0, naps |-> 0,        \* times the callback was asked, pauses of the length asked for
   reads |-> <<>>,                 \* answered reads [addr, cnt, d]
   acked |-> {},                   \* addresses whose write was acknowledged
   sent |-> {},                    \* addresses written to
   chg |-> FALSE]

Opaque(s) == s.cfg.via = "mapped"
DefOf(s, id) == LET is == {i \in DOMAIN s.cfg.defs : s.cfg.defs[i].id = id} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE

-----------------------------------------------------------------------------
(* The model chain behind a base address, from the registers of the device. *)
Marked(m, b) == Exists(m, b, 3) /\ m[b] = SunS[1] /\ m[b + 1] = SunS[2]
RECURSIVE ChainFrom(_, _, _)
ChainFrom(m, a, acc) ==
  IF a \notin DOMAIN m THEN [ok |-> FALSE, end |-> a, models |-> acc]
  ELSE IF m[a] = EndId THEN [ok |-> TRUE, end |-> a, models |-> acc]
  ELSE IF a + 1 \notin DOMAIN m THEN [ok |-> FALSE, end |-> a, models |-> acc]
  ELSE ChainFrom(m, a + 2 + m[a + 1], Append(acc, [id |-> m[a], addr |-> a + 2, len |-> m[a + 1]]))
Chain(m, b) == ChainFrom(m, b + 2, <<>>)

NewVal == [b |-> NoVal, k |-> 0, pend |-> "no"]
ModelOf(s, x) ==
  LET d == DefOf(s, x.id) IN
  IF d = 0 THEN [id |-> x.id, addr |-> x.addr, len |-> x.len, def |-> 0, ok |-> FALSE, zero |-> x.len = 0, blocks |-> <<>>]
  ELSE LET l == LayOut(s.cfg.defs[d], x.id, x.addr, x.len) IN
       [id |-> x.id, addr |-> x.addr, len |-> l.len, def |-> d, ok |-> l.ok, zero |-> x.len = 0,
        blocks |-> IF l.ok THEN l.blocks ELSE <<>>]
BlankSfs(ms) == [i \in DOMAIN ms |-> [j \in DOMAIN ms[i].blocks |-> [k \in DOMAIN ms[i].blocks[j].sfs |-> NoVal]]]
BlankVals(ms) == [i \in DOMAIN ms |-> [j \in DOMAIN ms[i].blocks |-> [k \in DOMAIN ms[i].blocks[j].pts |-> NewVal]]]

-----------------------------------------------------------------------------
PointsOf(s, mi) == {<<j, k>> \in (DOMAIN s.models[mi].blocks) \X (1..200) : k \in DOMAIN s.models[mi].blocks[j].pts}
Pt(s, mi, q) == s.models[mi].blocks[q[1]].pts[q[2]]
Regs(p) == p.addr..(p.addr + p.len - 1)

(* -- calls ---------------------------------------------------------------*)
RefOk(s, e) == /\ e.m \in DOMAIN s.models /\ e.b \in DOMAIN s.models[e.m].blocks
               /\ e.p \in DOMAIN s.models[e.m].blocks[e.b].pts
CallClauses(s, e) ==
  IF s.in THEN {"harness.nested"}
  ELSE IF e.op \in {"set", "get", "pwrite"} /\ ~RefOk(s, e) THEN {"harness.ref"}
  ELSE IF e.op \in {"read", "write"} /\ \E i \in DOMAIN e.ms : e.ms[i] \notin DOMAIN s.models THEN {"harness.ref"}
  ELSE {}

(* -- requests ------------------------------------------------------------*)
ScanReq(s, e) ==
  (IF e.fc # 3 THEN {"scan.func"} ELSE {})
  \cup (IF s.found = -1
        THEN IF s.probe > Len(s.cand) THEN {"scan.extra"}
             ELSE LET c == s.cand[s.probe]
                      end == IF Marked(s.mem, c) THEN Chain(s.mem, c).end ELSE c + 2 IN
                  (IF e.addr < c \/ e.addr > c + 2 THEN {"scan.order"} ELSE {})
                  \cup (IF e.addr + e.cnt - 1 > (IF end > c + 2 THEN end ELSE c + 2) THEN {"scan.beyond"} ELSE {})
        ELSE LET ch == Chain(s.mem, s.found) IN
             (IF e.addr < s.found THEN {"scan.order"} ELSE {})
             \cup (IF ch.ok /\ e.addr + e.cnt - 1 > ch.end THEN {"scan.beyond"} ELSE {}))

Whole(m) == m.addr..(m.addr + m.len - 1)
ReadReq(s, e) ==
  LET ms == {s.call.ms[i] : i \in DOMAIN s.call.ms}
      r == e.addr..(e.addr + e.cnt - 1) IN
  (IF e.fc # 3 THEN {"read.func"} ELSE {})
  \cup (IF e.cnt > s.cfg.maxread THEN {"read.long"} ELSE {})
  \cup (IF ~\E m \in ms : r \subseteq Whole(s.models[m]) THEN {"read.range"} ELSE {})
  \cup (IF \E m \in ms : \E q \in PointsOf(s, m) :
             LET g == Regs(Pt(s, m, q)) IN g \cap r # {} /\ ~(g \subseteq r)
        THEN {"read.split"} ELSE {})

(* the encoding of a point's current value                                  *)
EncOf(s, m, q) == LET p == Pt(s, m, q) IN Encode(p.t, 2 * p.len, s.vals[m][q[1]][q[2]].b)
Wanted(s) ==
  IF s.call.op = "pwrite" THEN {<<s.call.m, <<s.call.b, s.call.p>>>>}
  ELSE IF s.call.op = "write"
  THEN UNION {{<<s.call.ms[i], q>> : q \in {q \in PointsOf(s, s.call.ms[i]) : s.vals[s.call.ms[i]][q[1]][q[2]].pend # "no"}} :
              i \in DOMAIN s.call.ms}
  ELSE {}
Must(s) == IF s.call.op = "pwrite" THEN Wanted(s)
           ELSE {w \in Wanted(s) : s.vals[w[1]][w[2][1]][w[2][2]].pend = "yes"}
WriteReq(s, e) ==
  LET want == Wanted(s)
      r == e.addr..(e.addr + e.cnt - 1)
      hit == {w \in want : Regs(Pt(s, w[1], w[2])) \cap r # {}} IN
  (IF e.fc # 16 THEN {"write.func"} ELSE {})
  \cup (IF e.fc = 16 /\ ~(r \subseteq UNION {Regs(Pt(s, w[1], w[2])) : w \in hit}) THEN {"write.stray"} ELSE {})
  \cup (IF e.fc = 16 /\ \E w \in hit :
             LET p == Pt(s, w[1], w[2])
                 x == EncOf(s, w[1], w[2]) IN
             x.ok /\ \E i \in 1..2 * p.len :
                 LET a == p.addr + (i - 1) \div 2 IN
                 a \in r /\ e.d[2 * (a - e.addr) + 2 - (i % 2)] # x.b[i]
        THEN {"write.data"} ELSE {})

ReqClauses(s, e) ==
  IF ~s.in THEN {"req.unasked"}
  ELSE (IF e.fc = 3 /\ e.ok /\ e.d # BytesOf(s.mem, e.addr, e.cnt) THEN {"harness.memory"} ELSE {})
       \cup CASE s.call.op = "scan" -> ScanReq(s, e)
              [] s.call.op = "read" -> ReadReq(s, e)
              [] s.call.op \in {"write", "pwrite"} -> WriteReq(s, e)
              [] OTHER -> {"req.unasked"}

-----------------------------------------------------------------------------
(* -- what the object shows ------------------------------------------------*)
ShownVals(s, vals, o) ==
  \/ Len(o) # Len(vals)
  \/ \E i \in DOMAIN vals : s.models[i].ok /\
       (Len(o[i]) # Len(vals[i]) \/ \E j \in DOMAIN vals[i] :
         (Len(o[i][j]) # Len(vals[i][j]) \/ \E k \in DOMAIN vals[i][j] : ~Same(vals[i][j][k].b, o[i][j][k].b)))
ShownScaled(s, vals, o) ==
  \E i \in DOMAIN vals : s.models[i].ok /\ \E j \in DOMAIN vals[i] : \E k \in DOMAIN vals[i][j] :
     ~SameScaled(vals[i][j][k].b, vals[i][j][k].k, o[i][j][k].v)
(* scale factor points, where the event shows them                          *)
SfsOff(s, sfv, e) ==
  /\ "sfv" \in DOMAIN e
  /\ \/ Len(e.sfv) # Len(sfv)
     \/ \E i \in DOMAIN sfv : s.models[i].ok /\
          (Len(e.sfv[i]) # Len(sfv[i]) \/ \E j \in DOMAIN sfv[i] :
            (Len(e.sfv[i][j]) # Len(sfv[i][j]) \/ \E k \in DOMAIN sfv[i][j] : ~Same(sfv[i][j][k], e.sfv[i][j][k])))
SameSfs(s, e, rule) == IF SfsOff(s, s.sfv, e) THEN {rule \o ".value"} ELSE {}
(* nothing but what the call is for may change                              *)
Vals(s, vals, o, rule) ==
  IF ShownVals(s, vals, o) THEN {rule \o ".value"}
  ELSE IF ShownScaled(s, vals, o) THEN {rule \o ".scaled"} ELSE {}

FailKind(e, pre) == IF e.kind = "sserr" THEN {} ELSE IF e.kind = "ok" THEN {pre \o ".swallowed"} ELSE {pre \o ".untyped"}
GoodKind(e, pre) == IF e.kind = "ok" THEN {} ELSE IF e.kind = "sserr" THEN {pre \o ".refused"} ELSE {pre \o ".untyped"}

(* -- scan ----------------------------------------------------------------*)
(* a mapped device: where the marker is follows from the file              *)
FoundOf(s) == IF Opaque(s)
              THEN LET is == {i \in DOMAIN s.cand : Marked(s.mem, s.cand[i])} IN
                   IF is = {} THEN -1 ELSE s.cand[CHOOSE i \in is : \A j \in is : i <= j]
              ELSE s.found
ExpectedModels(s, ch) == [i \in DOMAIN ch.models |-> ModelOf(s, ch.models[i])]

SameLayout(m, o) ==
  IF ~m.ok THEN o.err
  ELSE ~o.err /\ o.blocks = m.blocks
(* base addresses tried in vain                                            *)
Missed(s, f) == (CHOOSE i \in DOMAIN s.cand : s.cand[i] = f) - 1
ScanRet(s, e) ==
  LET f == FoundOf(s)
      ch == IF f = -1 THEN [ok |-> FALSE, end |-> 0, models |-> <<>>] ELSE Chain(s.mem, f)
      broken == s.fail /\ s.found # -1
      must == f = -1 \/ ~ch.ok \/ s.refused \/ (s.found # -1 /\ s.fail) IN
  (IF e.open # 0 THEN {"scan.leak"} ELSE {})
  \cup (IF must
        THEN FailKind(e, "scan")
             \cup (IF ~Opaque(s) /\ f = -1 /\ ~s.fail /\ e.kind # "ok" /\ s.probe <= Len(s.cand) THEN {"scan.gaveup"} ELSE {})
             \cup (IF e.base \notin {s.base, f} THEN {"scan.base"} ELSE {})
        ELSE GoodKind(e, "scan")
             \cup (IF e.kind # "ok" THEN {}
                   ELSE LET ms == ExpectedModels(s, ch) IN
                        (IF e.base # f THEN {"scan.base"} ELSE {})
                        \cup (IF s.call.asks /\ s.asked # Len(ms) THEN {"scan.progress"} ELSE {})
                        \cup (IF s.call.delay > 0 /\ s.naps < Missed(s, f) + Len(ms) - 1 THEN {"scan.delay"} ELSE {})
                        \cup (IF Len(e.lay) # Len(ms) THEN {"scan.models"}
                              ELSE (IF \E i \in DOMAIN ms : e.lay[i].id # ms[i].id \/ e.lay[i].addr # ms[i].addr
                                           \/ (e.lay[i].len # ms[i].len /\ ~(ms[i].zero /\ e.lay[i].len = 0))
                                    THEN {"scan.models"} ELSE {})
                                   \cup (IF ~e.bymodel THEN {"scan.index"} ELSE {})
                                   \cup (IF \E i \in DOMAIN ms : (ms[i].def = 0 /\ ~e.lay[i].err) THEN {"scan.unknown"} ELSE {})
                                   \cup (IF \E i \in DOMAIN ms : ms[i].def # 0 /\ ~SameLayout(ms[i], e.lay[i])
                                         THEN {"lay.blocks"} ELSE {}))))

(* -- read ----------------------------------------------------------------*)
Cover(s, p) == {i \in DOMAIN s.reads : Regs(p) \subseteq s.reads[i].addr..(s.reads[i].addr + s.reads[i].cnt - 1)}
DataIn(s, i, p) == SubSeq(s.reads[i].d, 2 * (p.addr - s.reads[i].addr) + 1, 2 * (p.addr - s.reads[i].addr + p.len))
(* contents of a point's registers as fetched, latest first                 *)
Fetched(s, p) ==
  IF Opaque(s) THEN (IF Exists(s.mem, p.addr, p.len) THEN <<BytesOf(s.mem, p.addr, p.len)>> ELSE <<>>)
  ELSE LET c == Cover(s, p) IN
       IF c = {} THEN <<>> ELSE <<DataIn(s, CHOOSE i \in c : \A j \in c : j <= i, p)>>

SfAddr(s, m, sf) == LET b == s.models[m].blocks[sf.blk + 1]
                        j == CHOOSE j \in DOMAIN b.sfs : b.sfs[j].id = sf.id IN b.sfs[j].addr
SmallInt(v) == LET x == FoldLeft(LAMBDA a, d : IF a > 100000 THEN a ELSE 10 * a + d, 0, v.d \o Ten(v.e)) IN
               IF v.s = 1 THEN -x ELSE x
ScaleOf(s, m, p) ==
  IF p.sf.k = "none" THEN 0
  ELSE IF p.sf.k = "const" THEN p.sf.v
  ELSE LET f == Fetched(s, [addr |-> SfAddr(s, m, p.sf), len |-> 1]) IN
       IF f = <<>> THEN 0
       ELSE LET v == Decode("sunssf", f[1]) IN IF v.t = "n" THEN 0 ELSE SmallInt(v)
AllFetched(s, m) ==
  /\ \A q \in PointsOf(s, m) : LET p == Pt(s, m, q) IN
       Fetched(s, p) # <<>> /\ (p.sf.k = "pt" => Fetched(s, [addr |-> SfAddr(s, m, p.sf), len |-> 1]) # <<>>)
Freshly(s, m) ==
  [j \in DOMAIN s.vals[m] |-> [k \in DOMAIN s.vals[m][j] |->
     LET p == s.models[m].blocks[j].pts[k] IN
     [b |-> Decode(p.t, Fetched(s, p)[1]), k |-> ScaleOf(s, m, p), pend |-> "no"]]]

InCall(s, m) == m \in {s.call.ms[i] : i \in DOMAIN s.call.ms}
FreshSfs(s, m) ==
  [j \in DOMAIN s.sfv[m] |-> [k \in DOMAIN s.sfv[m][j] |->
     LET f == Fetched(s, [addr |-> s.models[m].blocks[j].sfs[k].addr, len |-> 1]) IN
     IF f = <<>> THEN AnyVal ELSE Decode("sunssf", f[1])]]
ReadSfs(s, upto) == [m \in DOMAIN s.sfv |-> IF m \in upto THEN FreshSfs(s, m) ELSE s.sfv[m]]
(* the values after the read: those of a model are all fetched or all old   *)
ReadVals(s, upto) == [m \in DOMAIN s.vals |-> IF m \in upto THEN Freshly(s, m) ELSE s.vals[m]]
Complete(s) == {m \in DOMAIN s.models : InCall(s, m) /\ s.models[m].ok /\ AllFetched(s, m)}
(* a mapped model the file does not cover cannot be read                    *)
MapLacks(s) == Opaque(s) /\ \E m \in DOMAIN s.models :
                 InCall(s, m) /\ s.models[m].def # 0 /\ ~Exists(s.mem, s.models[m].addr, s.models[m].len)
ReadRet(s, e) ==
  IF s.fail \/ MapLacks(s)
  THEN FailKind(e, "read")
       \cup (IF \A up \in SUBSET Complete(s) : Vals(s, ReadVals(s, up), e.val, "x") # {} \/ SfsOff(s, ReadSfs(s, up), e)
             THEN {"read.partial"} ELSE {})
  ELSE GoodKind(e, "read")
       \cup (IF e.kind # "ok" THEN {}
             ELSE IF \E m \in DOMAIN s.models : InCall(s, m) /\ s.models[m].ok /\ m \notin Complete(s) THEN {"read.missing"}
             ELSE Vals(s, ReadVals(s, Complete(s)), e.val, "read")
                  \cup (IF SfsOff(s, ReadSfs(s, Complete(s)), e) THEN {"read.value"} ELSE {}))
(* the models the read has updated                                          *)
Updated(s, e) ==
  IF s.fail \/ MapLacks(s)
  THEN LET ups == {up \in SUBSET Complete(s) : Vals(s, ReadVals(s, up), e.val, "x") = {} /\ ~SfsOff(s, ReadSfs(s, up), e)} IN
       IF ups = {} THEN {} ELSE CHOOSE u \in ups : TRUE
  ELSE IF e.kind = "ok" THEN Complete(s) ELSE {}

(* -- set -----------------------------------------------------------------*)
(* the unscaled value an assignment stands for; t = "?" if there is none    *)
Assigned(s, c) ==
  LET p == Pt(s, c.m, <<c.b, c.p>>)
      old == s.vals[c.m][c.b][c.p]
      v == c.v IN
  IF p.t \in IntTypes
  THEN IF v.t # "i" THEN AnyVal
       ELSE LET n == Num(v.s, v.d, v.e - old.k) IN IF n.e < 0 THEN AnyVal ELSE n
  ELSE v
SetVals(s) == [s.vals EXCEPT ![s.call.m][s.call.b][s.call.p] = [@ EXCEPT !.b = Assigned(s, s.call), !.pend = "yes"]]
SetRet(s, e) ==
  LET x == Assigned(s, s.call)
      p == Pt(s, s.call.m, <<s.call.b, s.call.p>>) IN
  IF x.t = "?" \/ ~Encode(p.t, 2 * p.len, x).ok THEN {}     \* nothing is promised for a value the point cannot hold
  ELSE GoodKind(e, "set") \cup (IF e.kind = "ok" THEN Vals(s, SetVals(s), e.val, "set") \cup SameSfs(s, e, "set") ELSE {})
Unknowable(s) == LET x == Assigned(s, s.call)
                     p == Pt(s, s.call.m, <<s.call.b, s.call.p>>) IN
                 x.t = "?" \/ ~Encode(p.t, 2 * p.len, x).ok
GetRet(s, e) ==
  LET x == s.vals[s.call.m][s.call.b][s.call.p] IN
  GoodKind(e, "get") \cup (IF e.kind = "ok" /\ ~SameScaled(x.b, x.k, e.v) THEN {"get.value"} ELSE {})
  \cup Vals(s, s.vals, e.val, "get") \cup SameSfs(s, e, "get")

(* -- write ---------------------------------------------------------------*)
AckedPt(s, w) == Regs(Pt(s, w[1], w[2])) \subseteq s.acked
(* pending points of a block that follow each other without a gap may be    *)
(* written together; they are taken over together                           *)
RECURSIVE RunOf(_, _, _)
RunOf(s, want, got) ==
  LET more == {w \in want \ got : \E g \in got : w[1] = g[1] /\ w[2][1] = g[2][1] /\
                 LET a == Pt(s, w[1], w[2])
                     b == Pt(s, g[1], g[2]) IN a.addr + a.len = b.addr \/ b.addr + b.len = a.addr} IN
  IF more = {} THEN got ELSE RunOf(s, want, got \cup more)
RunAcked(s, w) == \A x \in RunOf(s, Wanted(s), {w}) : AckedPt(s, x)
(* a map has no requests: what it holds afterwards is in e.dump             *)
Dump(e) == FoldLeft(LAMBDA m, g : [a \in g.a..(g.a + Len(g.w) - 1) |-> g.w[a - g.a + 1]] @@ m, << >>, e.dump)
MapAfter(s) == FoldLeft(LAMBDA m, w : SetWords(m, Pt(s, w[1], w[2]).addr, WordsOf(EncOf(s, w[1], w[2]).b)), s.mem,
                        SetToSeq(Must(s)))
(* points written back although nothing was assigned since the last read    *)
MapAgrees(s, e) ==
  LET d == Dump(e)
      x == MapAfter(s)
      may == UNION {Regs(Pt(s, w[1], w[2])) : w \in Wanted(s) \ Must(s)} IN
  DOMAIN d = DOMAIN x /\ \A a \in DOMAIN x : d[a] = x[a] \/ a \in may
NoneOf(s) == \E w \in Must(s) : ~EncOf(s, w[1], w[2]).ok
WriteRet(s, e) ==
  Vals(s, s.vals, e.val, "write") \cup SameSfs(s, e, "write")
  \cup (IF s.fail THEN FailKind(e, "write")
        ELSE IF NoneOf(s) THEN {}
        ELSE IF Opaque(s)
        THEN IF \A w \in Wanted(s) : Exists(s.mem, Pt(s, w[1], w[2]).addr, Pt(s, w[1], w[2]).len)
             THEN GoodKind(e, "write") \cup (IF e.kind = "ok" /\ ~MapAgrees(s, e) THEN {"write.data"} ELSE {})
             ELSE FailKind(e, "write")
        ELSE GoodKind(e, "write")
             \cup (IF e.kind = "ok" /\ \E w \in Must(s) : ~AckedPt(s, w) THEN {"write.missing"} ELSE {}))
WriteAfter(s, e) ==
  LET want == Wanted(s) IN
  [m \in DOMAIN s.vals |-> [j \in DOMAIN s.vals[m] |-> [k \in DOMAIN s.vals[m][j] |->
     LET w == <<m, <<j, k>>>>
         v == s.vals[m][j][k] IN
     IF w \notin want THEN v
     ELSE IF e.kind = "ok" \/ RunAcked(s, w) THEN [v EXCEPT !.pend = "no"]
     ELSE IF AckedPt(s, w) THEN [v EXCEPT !.pend = "may"]
     ELSE v]]]

(* -- names ---------------------------------------------------------------*)
NameOf(s, m) == IF m.def = 0 THEN "model_" \o ToString(m.id) ELSE s.cfg.defs[m.def].name
Names(s) == FoldLeft(LAMBDA acc, m : IF NameOf(s, m) \in ToSet(acc) THEN acc ELSE Append(acc, NameOf(s, m)), <<>>, s.models)
Named(s, n) == SelectSeq([i \in DOMAIN s.models |-> i], LAMBDA i : NameOf(s, s.models[i]) = n)
IdsOf(ps) == LET r == RealPoints(ps) IN [i \in DOMAIN r |-> r[i].id]
EntryOk(s, i, x) ==
  LET m == s.models[i]
      d == IF m.def = 0 THEN [fp |-> <<>>] ELSE s.cfg.defs[m.def] IN
  /\ x.m = i
  /\ x.name = NameOf(s, m)
  /\ x.points = IdsOf(d.fp)
  /\ m.ok =>
     /\ x.rep = [j \in 1..(Len(m.blocks) - 1) |-> j + 1]
     /\ Len(m.blocks) > 1 =>
        /\ x.same                              \* both names, one list, counted from 1
        /\ x.rname = d.rn
        /\ \A j \in DOMAIN x.rpoints : x.rpoints[j] = IdsOf(d.rp)
WrapRet(s, e) ==
  GoodKind(e, "wrap")
  \cup (IF e.kind # "ok" THEN {}
        ELSE IF e.names # Names(s) THEN {"names.list"}
        ELSE UNION {LET n == e.names[i]
                        x == e.entries[i]
                        is == Named(s, n) IN
                    IF x.list # (Len(is) > 1) \/ Len(x.of) # Len(is) THEN {"names.list"}
                    ELSE IF \E j \in DOMAIN is : ~EntryOk(s, is[j], x.of[j]) THEN {"names.entry"} ELSE {} : i \in DOMAIN e.names})

(* -- printing --------------------------------------------------------------*)
(* A printed line is [raw, n, toks]: its characters, the characters of the line without blanks,  *)
(* colons and parentheses, and for each piece between blanks that reads as  *)
(* a number [n, dec, hex], dec and hex being values, or NoVal.  Definitions *)
(* carry their names as code points: nc, rnc, and idc of a point.           *)
Plain(c) == SelectSeq(c, LAMBDA x : x \notin {9, 32, 58, 40, 41})
DigitCodes(n) == IF n = 0 THEN <<48>> ELSE LET d == SmallDigits(n) IN [i \in DOMAIN d |-> 48 + d[i]]
NameCodes(s, m) == IF m.def = 0 THEN <<109, 111, 100, 101, 108, 95>> \o DigitCodes(m.id) ELSE s.cfg.defs[m.def].nc
(* what is to be printed: lines [n] of characters, or [n, x] with a value   *)
BlockShown(s, i, j) ==
  LET m == s.models[i]
      d == s.cfg.defs[m.def]
      src == RealPoints(IF j = 1 THEN d.fp ELSE d.rp)
      all == [k \in DOMAIN s.vals[i][j] |-> [n |-> src[k].idc, v |-> s.vals[i][j][k].b, k |-> s.vals[i][j][k].k]] IN
  SelectSeq(all, LAMBDA x : x.v.t # "n")
Header(n) == <<[n |-> n, v |-> NoVal, k |-> 0]>>
RepShown(s, i, j) == Header(s.cfg.defs[s.models[i].def].rnc \o <<91>> \o DigitCodes(j - 1) \o <<93>>) \o BlockShown(s, i, j)
ModelShown(s, i) ==
  LET m == s.models[i] IN
  Header(NameCodes(s, m) \o DigitCodes(m.id))
  \o (IF m.def = 0 THEN <<>>
      ELSE BlockShown(s, i, 1) \o FoldLeft(LAMBDA acc, j : acc \o RepShown(s, i, j), <<>>, [j \in 1..Len(m.blocks) - 1 |-> j + 1]))
DeviceShown(s) ==
  FoldLeft(LAMBDA acc, n : acc \o FoldLeft(LAMBDA a, i : a \o ModelShown(s, i), <<>>, Named(s, n)), <<>>, Names(s))
LineShows(x, l) ==
  IF x.v.t = "n" THEN l.n = Plain(x.n)
  ELSE IF x.v.t = "?" THEN TRUE
  ELSE IF x.v.t = "s" THEN l.raw = x.n \o <<58, 32, 32>> \o x.v.c
  ELSE \E q \in DOMAIN l.toks : l.n = Plain(x.n) \o Plain(l.toks[q].n) /\ l.toks[q].dec.t # "n" /\ SameScaled(x.v, x.k, l.toks[q].dec)
ShowRet(s, e) ==
  LET c == s.call
      over == IF c.how = "device" THEN DOMAIN s.models ELSE {c.m}
      x == IF c.how = "device" THEN DeviceShown(s) ELSE IF c.b = 1 THEN ModelShown(s, c.m) ELSE RepShown(s, c.m, c.b) IN
  GoodKind(e, "show")
  \cup (IF e.kind # "ok" \/ \E i \in over : s.models[i].def # 0 /\ ~s.models[i].ok THEN {}
        ELSE IF Len(e.lines) # Len(x) THEN {"show.lines"}
        ELSE IF \E i \in DOMAIN x : ~LineShows(x[i], e.lines[i]) THEN {"show.line"} ELSE {})
  \cup Vals(s, s.vals, e.val, "show") \cup SameSfs(s, e, "show")

RetClauses(s, e) ==
  IF ~s.in THEN {"harness.ret"}
  ELSE (IF e.kind = "hang" THEN {"ret.hang"} ELSE {})
       \cup CASE s.call.op = "scan" -> ScanRet(s, e)
              [] s.call.op = "read" -> ReadRet(s, e)
              [] s.call.op = "set" -> SetRet(s, e)
              [] s.call.op = "get" -> GetRet(s, e)
              [] s.call.op \in {"write", "pwrite"} -> WriteRet(s, e)
              [] s.call.op = "wrap" -> WrapRet(s, e)
              [] s.call.op = "show" -> ShowRet(s, e)
              [] OTHER -> {"harness.op"}

(* a model instance loaded on its own                                       *)
LoadClauses(s, e) ==
  LET d == DefOf(s, e.mid) IN
  IF d = 0 THEN FailKind(e, "lay")
  ELSE LET l == LayOut(s.cfg.defs[d], e.mid, e.addr, e.len) IN
       IF ~l.ok THEN FailKind(e, "lay")
       ELSE GoodKind(e, "lay")
            \cup (IF e.kind = "ok" /\ (e.mlen # l.len \/ e.blocks # l.blocks) THEN {"lay.blocks"} ELSE {})
            \cup (IF e.kind = "ok" /\ ~e.exposed THEN {"lay.exposed"} ELSE {})

Clauses(s, e) ==
  IF s.off THEN {}
  ELSE CASE e.e = "call" -> CallClauses(s, e)
         [] e.e = "req" -> ReqClauses(s, e)
         [] e.e = "fault" -> {}
         [] e.e = "chg" -> {}
         [] e.e = "prog" -> IF s.in /\ s.call.op = "scan" THEN {} ELSE {"scan.progress"}
         [] e.e = "nap" -> IF s.in /\ s.call.op = "scan" /\ s.call.delay < 0 THEN {"scan.delay"} ELSE {}
         [] e.e = "load" -> LoadClauses(s, e)
         [] e.e = "ret" -> RetClauses(s, e)
         [] OTHER -> {"harness.event"}

-----------------------------------------------------------------------------
ScanReqStep(s, e) ==
  IF s.found # -1 THEN [s EXCEPT !.fail = @ \/ ~e.ok]
  ELSE IF s.probe > Len(s.cand) THEN s
  ELSE LET c == s.cand[s.probe] IN
       IF ~e.ok THEN [s EXCEPT !.probe = @ + 1]
       ELSE IF e.addr <= c /\ e.addr + e.cnt >= c + 2
       THEN IF Marked(s.mem, c) THEN [s EXCEPT !.found = c, !.fail = FALSE] ELSE [s EXCEPT !.probe = @ + 1]
       ELSE s
ReqStep(s, e) ==
  LET s1 == IF e.ap THEN [s EXCEPT !.mem = SetWords(@, e.addr, WordsOf(e.d))] ELSE s
      r == e.addr..(e.addr + e.cnt - 1) IN
  CASE s.call.op = "scan" -> ScanReqStep(s1, e)
    [] e.fc = 3 -> [s1 EXCEPT !.fail = @ \/ ~e.ok,
                              !.reads = IF e.ok THEN Append(@, [addr |-> e.addr, cnt |-> e.cnt, d |-> e.d]) ELSE @]
    [] OTHER -> [s1 EXCEPT !.fail = @ \/ ~e.ok, !.sent = @ \cup r, !.acked = IF e.ok THEN @ \cup r ELSE @]

(* a connection that could not be made: while probing the probe may go on   *)
FaultStep(s) == [s EXCEPT !.fail = TRUE, !.probe = IF s.call.op = "scan" /\ s.found = -1 THEN @ + 1 ELSE @]

RetStep(s, e) ==
  LET s1 == [s EXCEPT !.in = FALSE] IN
  CASE s.call.op = "scan" ->
         IF e.kind = "ok"
         THEN LET ms == ExpectedModels(s, Chain(s.mem, FoundOf(s))) IN
              [s1 EXCEPT !.base = e.base, !.models = ms, !.vals = BlankVals(ms), !.sfv = BlankSfs(ms), !.scanned = TRUE]
         ELSE [s1 EXCEPT !.base = e.base, !.models = <<>>, !.vals = <<>>, !.sfv = <<>>, !.scanned = FALSE]
    [] s.call.op = "read" -> [s1 EXCEPT !.vals = ReadVals(s, Updated(s, e)), !.sfv = ReadSfs(s, Updated(s, e))]
    [] s.call.op = "set" -> IF Unknowable(s) THEN [s1 EXCEPT !.off = TRUE] ELSE [s1 EXCEPT !.vals = SetVals(s)]
    [] s.call.op \in {"write", "pwrite"} ->
         IF NoneOf(s) THEN [s1 EXCEPT !.off = TRUE]
         ELSE [s1 EXCEPT !.vals = WriteAfter(s, e), !.mem = IF Opaque(s) THEN Dump(e) ELSE @]
    [] OTHER -> s1

Step(s, e) ==
  IF s.off THEN s
  ELSE CASE e.e = "call" ->
              [s EXCEPT !.in = TRUE, !.call = e, !.fail = FALSE, !.refused = FALSE, !.asked = 0, !.naps = 0, !.reads = <<>>, !.acked = {}, !.sent = {},
                        !.base = IF e.fresh THEN -1 ELSE @,
                        !.cand = IF s.base = -1 \/ e.fresh THEN Default ELSE <<s.base>>, !.probe = 1, !.found = -1]
         [] e.e = "req" -> ReqStep(s, e)
         [] e.e = "fault" -> FaultStep(s)
         [] e.e = "chg" -> [s EXCEPT !.mem = SetWords(@, e.a, e.w)]
         [] e.e = "prog" -> [s EXCEPT !.refused = @ \/ ~e.cont, !.asked = @ + 1]
         [] e.e = "nap" -> IF s.in /\ s.call.op = "scan" /\ e.d = s.call.delay THEN [s EXCEPT !.naps = @ + 1] ELSE s
         [] e.e = "ret" -> RetStep(s, e)
         [] OTHER -> s
=============================================================================
