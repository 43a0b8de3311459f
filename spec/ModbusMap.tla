------------------------------ MODULE ModbusMap ------------------------------
(***************************************************************************)
(* Contract of Modbus maps: several named maps under loading, adding of    *)
(* registers, reading, writing, saving and comparing.                      *)
(*   map  = [base, func, ids, blk]                                         *)
(*   blk  = sequence of [off, cnt, acc, b]: registers off..off+cnt-1 with  *)
(*          content bytes b                                                *)
(* Every event carries obs, the map as it looks after the event.           *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC

None4 == <<"~", "~", "~", "~">>
EmptyMap == [base |-> 40000, func |-> 3, ids |-> None4, blk |-> <<>>]
InitState(cfg) == [maps |-> <<>>]
Has(s, m) == m \in DOMAIN s.maps

-----------------------------------------------------------------------------
(* register memory of a block list: offset -> word (as a byte pair)         *)
Offs(blk) == UNION {blk[i].off..(blk[i].off + blk[i].cnt - 1) : i \in DOMAIN blk}
WordAt(blk, o) ==
  LET k == CHOOSE i \in DOMAIN blk : o \in blk[i].off..(blk[i].off + blk[i].cnt - 1)
      p == 2 * (o - blk[k].off) IN <<blk[k].b[p + 1], blk[k].b[p + 2]>>
Mem(blk) == [o \in Offs(blk) |-> WordAt(blk, o)]
WellFormed(blk) == \A i \in DOMAIN blk : Len(blk[i].b) = 2 * blk[i].cnt
Next1(blk) == IF blk = <<>> THEN 0 ELSE blk[Len(blk)].off + blk[Len(blk)].cnt
BytesAt(mem, o, n) == FlattenSeq([i \in 1..n |-> mem[o + i - 1]])

(* n registers with content b at offset o, in the last block if they        *)
(* continue it                                                              *)
AddRegs(blk, o, n, b, acc) ==
  IF blk # <<>> /\ o = Next1(blk)
  THEN [blk EXCEPT ![Len(blk)] = [@ EXCEPT !.cnt = @ + n, !.b = @ \o b]]
  ELSE Append(blk, [off |-> o, cnt |-> n, acc |-> acc, b |-> b])

(* access settings compared at the first register of every run              *)
SameAccess(x, y) ==
  LET First(blk) == {o \in Offs(blk) : o - 1 \notin Offs(blk)}
      Acc(blk, o) == blk[CHOOSE i \in DOMAIN blk : o \in blk[i].off..(blk[i].off + blk[i].cnt - 1)].acc IN
  \A o \in First(x) \cap First(y) : Acc(x, o) = Acc(y, o)

-----------------------------------------------------------------------------
(* Loading a document: doc = [func, addr, ids, els]; func and addr are "~"  *)
(* if absent; el = [off (-1: none), len (0: none), typ, acc, has, txt, fl]  *)
FuncVal(f) == CASE f \in {"~", "holding"} -> 3 [] f = "input" -> 4 [] OTHER -> 0
TypeLen == [s16 |-> 1, u16 |-> 1, s32 |-> 2, u32 |-> 2, s64 |-> 4, u64 |-> 4, f32 |-> 2, f64 |-> 4]
NoContent == [ok |-> FALSE, n |-> 0, b |-> <<>>]
PadTo(b, n) == b \o [i \in 1..(n - Len(b)) |-> 0]

Content(el) ==
  LET t == IF el.typ = "~" THEN "hexstr" ELSE el.typ IN
  IF t \in {"s16", "u16", "s32", "u32", "s64", "u64"}
  THEN LET n == TypeLen[t]
           r == IntBytes(IF el.has THEN el.txt ELSE <<48>>, 2 * n, t \in {"s16", "s32", "s64"}) IN
       [ok |-> r.ok, n |-> n, b |-> r.b]
  ELSE IF t \in {"f32", "f64"}
  THEN LET n == TypeLen[t]
           eb == IF t = "f32" THEN 8 ELSE 11
           mb == IF t = "f32" THEN 23 ELSE 52 IN
       IF ~el.has THEN [ok |-> TRUE, n |-> n, b |-> Zeros(2 * n)]
       ELSE IF el.fl.bad \/ ~FitsFloat(el.fl, eb, mb) THEN NoContent
       ELSE [ok |-> TRUE, n |-> n, b |-> Ieee(el.fl, eb, mb)]
  ELSE IF t = "string"
  THEN LET x == IF el.has THEN el.txt ELSE <<>>
           n == IF el.len = 0 THEN (Len(x) + 1) \div 2 ELSE el.len IN
       IF \E i \in DOMAIN x : x[i] > 255 THEN NoContent
       ELSE [ok |-> TRUE, n |-> n, b |-> IF Len(x) > 2 * n THEN SubSeq(x, 1, 2 * n) ELSE PadTo(x, 2 * n)]
  ELSE IF t = "hexstr"
  THEN LET x == SelectSeq(IF el.has THEN el.txt ELSE <<>>, LAMBDA c : c # 32)
           n == IF el.len = 0 THEN Len(x) \div 4 ELSE el.len IN
       IF Len(x) % 4 # 0 \/ Len(x) > 4 * n \/ \E i \in DOMAIN x : ~IsHex(x[i]) THEN NoContent
       ELSE [ok |-> TRUE, n |-> n,
             b |-> PadTo([i \in 1..Len(x) \div 2 |-> 16 * HexVal(x[2 * i - 1]) + HexVal(x[2 * i])], 2 * n)]
  ELSE NoContent

LoadBlocks(els) ==
  FoldLeft(LAMBDA acc, el :
      IF ~acc.ok THEN acc
      ELSE LET o == IF el.off = -1 THEN Next1(acc.blk) ELSE el.off
               c == Content(el) IN
           IF ~c.ok \/ o < Next1(acc.blk) THEN [acc EXCEPT !.ok = FALSE]
           ELSE [acc EXCEPT !.blk = AddRegs(@, o, c.n, c.b, IF el.acc = "~" THEN "r" ELSE el.acc)],
    [ok |-> TRUE, blk |-> <<>>], els)

LoadDoc(doc) ==
  LET r == LoadBlocks(doc.els) IN
  [ok |-> r.ok /\ FuncVal(doc.func) # 0 /\ ~doc.badaddr /\ ~doc.notxml,
   map |-> [base |-> doc.addr, func |-> FuncVal(doc.func), ids |-> doc.ids, blk |-> r.blk]]

-----------------------------------------------------------------------------
(* differences between an expected map and an observed one                  *)
Diff(pre, m, obs) ==
  (IF obs.base # m.base THEN {pre \o ".base"} ELSE {})
  \cup (IF obs.func # m.func THEN {pre \o ".func"} ELSE {})
  \cup (IF obs.ids # m.ids THEN {pre \o ".ids"} ELSE {})
  \cup (IF ~WellFormed(obs.blk) THEN {pre \o ".malformed"}
        ELSE IF Mem(obs.blk) # Mem(m.blk) THEN {pre \o ".mem"}
        ELSE IF ~SameAccess(m.blk, obs.blk) THEN {pre \o ".access"} ELSE {})

ErrKind(e) == CASE e.via = "dev" -> "err" [] e.via = "client" -> "sserr" [] OTHER -> "maperr"
Outcome(pre, e, ok) ==
  IF ok THEN (IF e.kind # "ok" THEN {pre \o ".refused"} ELSE {})
  ELSE IF e.kind = "ok" THEN {pre \o ".accepted"}
  ELSE IF e.kind # ErrKind(e) THEN {pre \o ".untyped"} ELSE {}

Fits(m, addr, n) == \A i \in 0..n - 1 : (addr - m.base + i) \in Offs(m.blk)
Blank(m) == [m EXCEPT !.blk = [i \in DOMAIN m.blk |-> [m.blk[i] EXCEPT !.b = Zeros(Len(m.blk[i].b))]]]

LoadClauses(s, e) ==
  LET x == LoadDoc(e.doc) IN
  Outcome("load", e, x.ok) \cup (IF x.ok /\ e.kind = "ok" THEN Diff("load", x.map, e.obs) ELSE {})

AddClauses(s, e) ==
  LET m == s.maps[e.m]
      o == IF e.addr # -1 THEN e.addr - m.base ELSE e.off
      ok == o >= Next1(m.blk) /\ (e.addr = -1 \/ e.addr >= m.base)
      x == IF ok THEN [m EXCEPT !.blk = AddRegs(m.blk, o, e.n, Zeros(2 * e.n), e.acc)] ELSE m IN
  Outcome("add", e, ok) \cup Diff("add", x, e.obs)

(* a block placed in the map directly, possibly next to another one         *)
PutClauses(s, e) ==
  LET m == s.maps[e.m] IN
  IF e.off < Next1(m.blk) \/ e.kind # "ok" THEN {"harness.put"}
  ELSE Diff("put", [m EXCEPT !.blk = Append(@, [off |-> e.off, cnt |-> Len(e.b) \div 2, acc |-> e.acc, b |-> e.b])],
            e.obs)

ReadClauses(s, e) ==
  LET m == s.maps[e.m]
      ok == (e.op = 0 \/ e.op = m.func) /\ Fits(m, e.addr, e.n) IN
  Outcome("read", e, ok)
  \cup (IF ok /\ e.kind = "ok" /\ e.data # BytesAt(Mem(m.blk), e.addr - m.base, e.n) THEN {"read.data"} ELSE {})
  \cup Diff("readonly", m, e.obs)

(* a write that fails may have been carried out in part                     *)
WriteClauses(s, e) ==
  LET m == s.maps[e.m]
      n == Len(e.data) \div 2
      o == e.addr - m.base
      ok == Len(e.data) % 2 = 0 /\ Fits(m, e.addr, n)
      old == Mem(m.blk)
      new == Mem(e.obs.blk)
      in == o..(o + n - 1) IN
  Outcome("write", e, ok)
  \cup (IF e.obs.base # m.base \/ e.obs.func # m.func \/ e.obs.ids # m.ids THEN {"write.header"} ELSE {})
  \cup (IF ~WellFormed(e.obs.blk) THEN {"write.malformed"}
        ELSE IF Offs(e.obs.blk) # Offs(m.blk) THEN {"write.shape"}
        ELSE (IF \E a \in DOMAIN old \ in : old[a] # new[a] THEN {"write.stray"} ELSE {})
             \cup (IF ok /\ e.kind = "ok" /\ \E a \in in :
                        new[a] # <<e.data[2 * (a - o) + 1], e.data[2 * (a - o) + 2]>>
                   THEN {"write.lost"} ELSE {})
             \cup (IF ~ok /\ Len(e.data) % 2 = 0 /\ \E a \in in \cap DOMAIN old :
                        new[a] # old[a] /\ new[a] # <<e.data[2 * (a - o) + 1], e.data[2 * (a - o) + 2]>>
                   THEN {"write.stray"} ELSE {})
             \cup (IF ~SameAccess(m.blk, e.obs.blk) THEN {"write.header"} ELSE {}))

(* e.m2 is the map loaded from what was saved; e.ne, e.ne2 the comparisons  *)
Separate(blk) == \A i \in 1..Len(blk) - 1 : blk[i].off + blk[i].cnt < blk[i + 1].off
SaveClauses(s, e) ==
  LET m == s.maps[e.m]
      x == IF e.nodata THEN Blank(m) ELSE m IN
  IF e.kind # "ok" THEN {"save.refused"}
  ELSE Diff("save", x, e.obs2) \cup Diff("saving", m, e.obs)
       \cup (IF Separate(m.blk) /\ e.ne # (Mem(x.blk) # Mem(m.blk)) THEN {"save.compare"} ELSE {})
       \cup (IF e.ne2 # e.ne THEN {"save.compare"} ELSE {})

SameMap(a, b) == a.base = b.base /\ a.func = b.func /\ a.blk = b.blk
CompareClauses(s, e) ==
  IF e.kind # "ok" THEN {"compare.untyped"}
  ELSE (IF e.ne = SameMap(s.maps[e.m], s.maps[e.m2]) THEN {"compare.wrong"} ELSE {})
       \cup Diff("comparing", s.maps[e.m], e.obs)

Clauses(s, e) ==
  IF e.e \in {"load", "new", "hex"}
  THEN CASE e.e = "load" -> LoadClauses(s, e)
         [] e.e = "new" ->
              Outcome("new", e, FuncVal(e.func) # 0)
              \cup (IF e.kind = "ok" /\ FuncVal(e.func) # 0
                    THEN Diff("new", [base |-> e.base, func |-> FuncVal(e.func), ids |-> e.ids, blk |-> <<>>], e.obs)
                    ELSE {})
         [] e.e = "hex" ->
              Outcome("load", e, e.good)
              \cup (IF e.kind = "ok" /\ e.good
                    THEN Diff("load", [EmptyMap EXCEPT !.blk = <<[off |-> 0, cnt |-> Len(e.bytes) \div 2, acc |-> "rw",
                                                                   b |-> e.bytes]>>], e.obs)
                    ELSE {})
  ELSE IF ~Has(s, e.m) \/ (e.e = "compare" /\ ~Has(s, e.m2)) THEN {"harness.nomap"}
  ELSE CASE e.e = "add" -> AddClauses(s, e)
         [] e.e = "put" -> PutClauses(s, e)
         [] e.e = "read" -> ReadClauses(s, e)
         [] e.e = "write" -> WriteClauses(s, e)
         [] e.e = "save" -> SaveClauses(s, e)
         [] e.e = "compare" -> CompareClauses(s, e)
         [] OTHER -> {"harness.event"}

Put(maps, k, v) == (k :> v) @@ maps
Step(s, e) ==
  CASE e.e \in {"load", "new", "hex"} -> IF e.kind = "ok" THEN [s EXCEPT !.maps = Put(@, e.m, e.obs)] ELSE s
    [] e.e = "save" -> [s EXCEPT !.maps = Put(Put(@, e.m2, e.obs2), e.m, e.obs)]
    [] OTHER -> [s EXCEPT !.maps = Put(@, e.m, e.obs)]
=============================================================================
