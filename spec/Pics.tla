--------------------------------- MODULE Pics ---------------------------------
(***************************************************************************)
(* Devices written to and loaded from PICS documents, and their comparison. *)
(*                                                                          *)
(* cfg = [sets, docs, ints, texts]: sets of model definition documents, PICS *)
(* documents (docs[n] = [how, doc]: how is "element" if doc is the device    *)
(* element itself, otherwise doc is a whole document), which texts are       *)
(* numbers, and for texts of points [text, code points, as a float].         *)
(*                                                                          *)
(* A device is [base, bymodel, models]; a model [id, addr, len, err, blocks, *)
(* vals]; blocks are those of Layout, vals has for each block [pts, sfs]:     *)
(* pts with unscaled value b, scaled value v and scale factor k, sfs values.  *)
(*                                                                          *)
(* Events: built (device d has come about in some other way, or was changed), *)
(* wrote (device d to doc), loaded (device d from what device src wrote, or,  *)
(* src = 0, from document n), cmp (a compared to b), state (of d, afterwards) *)
(***************************************************************************)
EXTENDS Smdx, Layout, Codec

Convert(ints, ps) == [i \in DOMAIN ps |-> [id |-> ps[i].id, off |-> ps[i].off, t |-> ps[i].t, len |-> ps[i].len,
  sf |-> IF ~ps[i].hassf THEN [k |-> "none", v |-> 0, n |-> ""]
         ELSE IF IsInt(ints, ps[i].sf) THEN [k |-> "const", v |-> IntOf(ints, ps[i].sf), n |-> ""]
         ELSE [k |-> "pt", v |-> 0, n |-> ps[i].sf]]]
LayoutOf(ints, x) == [id |-> x.id, len |-> x.len, name |-> x.name, fl |-> x.fixed.len, fp |-> Convert(ints, x.fixed.pts), rep |-> x.hasrep,
                      rl |-> x.rep.len, rp |-> Convert(ints, x.rep.pts), rn |-> x.rep.name]

-----------------------------------------------------------------------------
(* the number a text stands for                                             *)
BadNum == [ok |-> FALSE, v |-> NoVal]
NumberIn(c) ==
  LET neg == c # <<>> /\ c[1] = 45
      t == IF c # <<>> /\ c[1] \in {43, 45} THEN Tail(c) ELSE c
      hex == Len(t) > 2 /\ t[1] = 48 /\ t[2] \in {88, 120}
      ds == IF hex THEN SubSeq(t, 3, Len(t)) ELSE t
      s == IF neg THEN 1 ELSE 0 IN
  IF ds = <<>> \/ \E i \in DOMAIN ds : ~(IF hex THEN IsHex(ds[i]) ELSE IsDigit(ds[i])) THEN BadNum
  ELSE IF hex THEN [ok |-> TRUE, v |-> IntVal(s, FromDigits([i \in DOMAIN ds |-> HexVal(ds[i])], 16, 12).b)]
  ELSE IF ds[1] = 48 /\ \E i \in DOMAIN ds : ds[i] # 48 THEN BadNum
  ELSE [ok |-> TRUE, v |-> Num(s, [i \in DOMAIN ds |-> ds[i] - 48], 0)]
(* the value a text stands for, in a point of a type                        *)
Sentinel(t, len, v) == LET e == Encode(t, 2 * len, v) IN e.ok /\ Decode(t, e.b).t = "n"
(* an EUI-48 of zeros: a device says so with a first register that is not 0, which no text shows *)
Unsaid(t) == IF t = "eui48" THEN [NoVal EXCEPT !.t = "?"] ELSE NoVal
ValueIn(texts, t, len, x) ==
  LET row == texts[x]
      r == IF t \in IntTypes THEN NumberIn(row.c)
           ELSE [ok |-> TRUE, v |-> IF t = "float32" THEN (IF row.f.t = "nan" THEN NoVal ELSE row.f) ELSE TextVal(row.c)] IN
  IF r.ok /\ t # "float32" /\ Sentinel(t, len, r.v) THEN [r EXCEPT !.v = Unsaid(t)] ELSE r

-----------------------------------------------------------------------------
(* documents                                                                *)
DefOf(set, id) == IF \E i \in DOMAIN set : set[i].id = id THEN CHOOSE i \in DOMAIN set : set[i].id = id ELSE 0

Blank(blocks) == [i \in DOMAIN blocks |-> [pts |-> [j \in DOMAIN blocks[i].pts |-> NoVal], sfs |-> [j \in DOMAIN blocks[i].sfs |-> NoVal]]]
Spot(s, id) == IF \E j \in DOMAIN s : s[j].id = id THEN CHOOSE j \in DOMAIN s : s[j].id = id ELSE 0
(* [ok, v]: what a point element makes of a value                           *)
NewValue(texts, t, len, old, p) ==
  IF At(p, "impl", "true") = "false" THEN [ok |-> TRUE, v |-> NoVal]
  ELSE IF p.x = "" THEN [ok |-> TRUE, v |-> old]
  ELSE ValueIn(texts, t, len, p.x)
PutPoint(texts, blk, acc, p) ==
  LET id == At(p, "id", "")
      j == Spot(blk.pts, id)
      k == Spot(blk.sfs, id)
      r == IF j # 0 THEN NewValue(texts, blk.pts[j].t, blk.pts[j].len, acc.v.pts[j], p)
           ELSE IF k # 0 THEN NewValue(texts, "sunssf", 1, acc.v.sfs[k], p) ELSE [ok |-> TRUE, v |-> NoVal] IN
  IF p.g # "point" THEN [acc EXCEPT !.ok = FALSE]
  ELSE IF ~r.ok THEN [acc EXCEPT !.ok = FALSE]
  ELSE IF j # 0 THEN [acc EXCEPT !.v.pts[j] = r.v]
  ELSE IF k # 0 THEN [acc EXCEPT !.v.sfs[k] = r.v]
  ELSE acc
PutBlock(texts, blk, v, b) == FoldLeft(LAMBDA acc, p : PutPoint(texts, blk, acc, p), [ok |-> TRUE, v |-> v], b.k)

BlockType(b) == At(b, "type", "fixed")
(* which blocks of n (the first is the fixed one) an element speaks of      *)
Targets(ints, n, b) ==
  IF BlockType(b) = "fixed" THEN {1}
  ELSE IF ~Has(b, "index") THEN 2..n
  ELSE {IntAt(ints, b, "index") + 1}
BlockElementBad(ints, b) ==
  \/ b.g # "block"
  \/ BlockType(b) \notin {"fixed", "repeating"}
  \/ BlockType(b) = "repeating" /\ Has(b, "index") /\ ~HasInt(ints, b, "index")
(* [ok, vals]                                                               *)
PutAll(ints, texts, blocks, m) ==
  FoldLeft(LAMBDA acc, b :
    IF BlockElementBad(ints, b) \/ ~(Targets(ints, Len(blocks), b) \subseteq DOMAIN blocks)
       \/ (BlockType(b) = "repeating" /\ 1 \in Targets(ints, Len(blocks), b)) THEN [acc EXCEPT !.ok = FALSE]
    ELSE FoldLeft(LAMBDA a, i : LET r == PutBlock(texts, blocks[i], a.vals[i], b) IN
                                [ok |-> a.ok /\ r.ok, vals |-> [a.vals EXCEPT ![i] = r.v]],
                  acc, SetToSeq(Targets(ints, Len(blocks), b))),
    [ok |-> TRUE, vals |-> Blank(blocks)], m.k)

ModelElementBad(ints, m) == m.g # "model" \/ ~HasInt(ints, m, "id") \/ (Has(m, "len") /\ ~HasInt(ints, m, "len"))
(* a model: ok FALSE if the document is malformed here                      *)
ModelIn(st, set, m, addr) ==
  LET id == IntAt(st.ints, m, "id")
      mlen == IF Has(m, "len") THEN IntAt(st.ints, m, "len") ELSE 0
      di == DefOf(set, id)
      bare == [ok |-> TRUE, def |-> di, id |-> id, addr |-> addr, len |-> mlen, err |-> TRUE, blocks |-> <<>>, vals |-> <<>>] IN
  IF ModelElementBad(st.ints, m) THEN [bare EXCEPT !.ok = FALSE]
  ELSE IF di = 0 THEN bare
  ELSE LET l == LayOut(set[di].lay, id, addr, mlen) IN
       IF ~l.ok THEN [bare EXCEPT !.len = l.len]
       ELSE LET r == PutAll(st.ints, st.texts, l.blocks, m) IN
            [bare EXCEPT !.ok = r.ok, !.len = l.len, !.err = FALSE, !.blocks = l.blocks, !.vals = r.vals]
(* the device element of a document, if it is one                           *)
DeviceElements(how, doc) == IF how = "element" THEN (IF doc.g = "device" THEN <<doc>> ELSE <<>>)
                            ELSE IF doc.g # "sunSpecPics" THEN <<>> ELSE Kids(doc, "device")
Broken == [ok |-> FALSE, base |-> 0, models |-> <<>>]
Meaning2(st, set, how, doc) ==
  LET ds == DeviceElements(how, doc) IN
  IF ds = <<>> THEN Broken
  ELSE LET d == ds[1] IN
       IF Has(d, "addr") /\ ~HasInt(st.ints, d, "addr") THEN Broken
       ELSE LET base == IF Has(d, "addr") THEN IntAt(st.ints, d, "addr") ELSE 40000
                r == FoldLeft(LAMBDA acc, m : LET x == ModelIn(st, set, m, acc.addr + 2) IN
                                              [addr |-> acc.addr + 2 + x.len, models |-> Append(acc.models, x)],
                              [addr |-> base + 2, models |-> <<>>], d.k) IN
            [ok |-> \A i \in DOMAIN r.models : r.models[i].ok, base |-> base, models |-> r.models]
(* content nothing can be made of, in a place that concerns no block: the   *)
(* document may be refused or not                                           *)
Doubtful(st, set, how, doc) ==
  LET ds == DeviceElements(how, doc)
      x == Meaning2(st, set, how, doc) IN
  x.ok /\ \E i \in DOMAIN x.models :
    LET m == ds[1].k[i] IN
    \E j \in DOMAIN m.k :
      \/ x.models[i].err /\ (BlockElementBad(st.ints, m.k[j]) \/ Has(m.k[j], "index") \/ \E l \in DOMAIN m.k[j].k : TRUE)
      \/ ~x.models[i].err /\ Targets(st.ints, Len(x.models[i].blocks), m.k[j]) = {} /\ \E l \in DOMAIN m.k[j].k : m.k[j].k[l].g # "point"

-----------------------------------------------------------------------------
(* an observed device against an expected one                               *)
SmallOf(v) == IF v.t # "i" THEN 0
              ELSE LET n == FoldLeft(LAMBDA a, d : IF a > 10000 THEN a ELSE 10 * a + d, 0, v.d \o Ten(v.e)) IN IF v.s = 1 THEN -n ELSE n
ScaleOf(m, p) == IF p.sf.k = "const" THEN p.sf.v
                 ELSE IF p.sf.k = "pt" THEN LET b == m.blocks[p.sf.blk + 1] IN SmallOf(m.vals[p.sf.blk + 1].sfs[Spot(b.sfs, p.sf.id)])
                 ELSE 0
ShapeWrong(x, o) ==
  \/ Len(o.models) # Len(x.models) \/ ~o.bymodel \/ o.base # x.base
  \/ \E i \in DOMAIN x.models : LET a == x.models[i]
                                     b == o.models[i] IN
       a.id # b.id \/ a.len # b.len \/ a.addr # b.addr \/ a.err # b.err \/ (~a.err /\ a.blocks # b.blocks)
ValuesWrong(x, o) ==
  \E i \in DOMAIN x.models : ~x.models[i].err /\ \E j \in DOMAIN x.models[i].vals :
    LET v == x.models[i].vals[j]
        w == o.models[i].vals[j] IN
    (\E k \in DOMAIN v.pts : ~Same(v.pts[k], w.pts[k].b)) \/ (\E k \in DOMAIN v.sfs : ~Same(v.sfs[k], w.sfs[k]))
ScaledWrong(x, o) ==
  \E i \in DOMAIN x.models : ~x.models[i].err /\ \E j \in DOMAIN x.models[i].vals : \E k \in DOMAIN x.models[i].vals[j].pts :
    ~SameScaled(x.models[i].vals[j].pts[k], ScaleOf(x.models[i], x.models[i].blocks[j].pts[k]), o.models[i].vals[j].pts[k].v)

(* a point with a value names the scale factor in force, 0 included         *)
FactorWrong(x, o) ==
  \E i \in DOMAIN x.models : ~x.models[i].err /\ \E j \in DOMAIN x.models[i].vals : \E k \in DOMAIN x.models[i].vals[j].pts :
    LET m == x.models[i]
        p == m.blocks[j].pts[k]
        w == o.models[i].vals[j].pts[k].k IN
    m.vals[j].pts[k].t # "n" /\
      CASE p.sf.k = "pt" -> LET b == m.blocks[p.sf.blk + 1] IN ~Same(m.vals[p.sf.blk + 1].sfs[Spot(b.sfs, p.sf.id)], w)
        [] p.sf.k = "const" -> w.t # "i" \/ SmallOf(w) # p.sf.v
        [] OTHER -> w.t # "n"

(* the value that says "not implemented" is no value                        *)
Plainly(t, len, v) == IF v.t \in {"i", "s"} /\ Sentinel(t, len, v) THEN Unsaid(t) ELSE v
(* a written document against the device                                    *)
NotWritten(x, d, single) ==
  \/ ~x.ok \/ Len(x.models) # Len(d.models)
  \/ \E i \in DOMAIN x.models : LET a == x.models[i]
                                     b == d.models[i] IN
       \/ a.id # b.id \/ a.len # b.len
       \/ ~a.err /\ ~b.err /\
          (\/ Len(a.vals) # Len(b.vals)
           \/ \E j \in DOMAIN a.vals : LET w == b.vals[IF single /\ j > 2 THEN 2 ELSE j] IN
                \/ \E k \in DOMAIN a.vals[j].pts : LET p == a.blocks[j].pts[k] IN ~Same(Plainly(p.t, p.len, w.pts[k].b), a.vals[j].pts[k])
                \/ \E k \in DOMAIN a.vals[j].sfs : ~Same(Plainly("sunssf", 1, w.sfs[k]), a.vals[j].sfs[k]))

-----------------------------------------------------------------------------
(* comparison                                                               *)
Without(r, ns) == [n \in DOMAIN r \ ns |-> r[n]]
SameBlockType(a, b) == a.type = b.type /\ a.len = b.len /\ ToSet(a.pts) = ToSet(b.pts)
SameModelType(a, b) ==
  /\ Without(a, {"name", "fixed", "rep"}) = Without(b, {"name", "fixed", "rep"})
  /\ SameBlockType(a.fixed, b.fixed) /\ (a.hasrep => SameBlockType(a.rep, b.rep))
Sorted(a, b) == a.fixed.pts = b.fixed.pts /\ a.rep.pts = b.rep.pts
SameNumber(a, b) == a = b \/ (a.t = "f" /\ b.t = "f" /\ a.d = <<>> /\ b.d = <<>>)
(* "eq", "ne" or "either"                                                   *)
Compared(s, a, b) ==
  LET x == s.devs[a]
      y == s.devs[b]
      known(d, set, i) == DefOf(set, d.models[i].id)
      sa == s.sets[x.set]
      sb == s.sets[y.set] IN
  IF Len(x.models) # Len(y.models) THEN "ne"
  ELSE LET defs == [i \in DOMAIN x.models |-> <<known(x, sa, i), known(y, sb, i)>>]
           differs(i) ==
             LET m == x.models[i]
                 n == y.models[i]
                 d == defs[i] IN
             IF d[1] = 0 /\ d[2] = 0 THEN m.id # n.id \/ m.len # n.len
             ELSE IF d[1] = 0 \/ d[2] = 0 THEN TRUE
             ELSE \/ ~SameModelType(sa[d[1]].full, sb[d[2]].full)
                  \/ ~m.err /\ ~n.err /\
                     (\/ Len(m.vals) # Len(n.vals)
                      \/ /\ Sorted(sa[d[1]].full, sb[d[2]].full)
                         /\ \E j \in DOMAIN m.vals : \E k \in DOMAIN m.vals[j].pts :
                              ~SameNumber(m.vals[j].pts[k].b, n.vals[j].pts[k].b) \/ ~SameNumber(m.vals[j].pts[k].k, n.vals[j].pts[k].k))
           open(i) ==
             LET m == x.models[i]
                 n == y.models[i]
                 d == defs[i] IN
             /\ d[1] # 0 /\ d[2] # 0
             /\ \/ m.err \/ n.err \/ m.len # n.len
                \/ ~Sorted(sa[d[1]].full, sb[d[2]].full)
                \/ \E j \in DOMAIN m.vals : \E k \in DOMAIN m.vals[j].sfs : ~SameNumber(m.vals[j].sfs[k], n.vals[j].sfs[k]) IN
       IF \E i \in DOMAIN x.models : differs(i) THEN "ne"
       ELSE IF \E i \in DOMAIN x.models : open(i) THEN "either" ELSE "eq"

-----------------------------------------------------------------------------
TextTable(t) == [x \in {t[i][1] : i \in DOMAIN t} |-> LET i == CHOOSE i \in DOMAIN t : t[i][1] = x IN [c |-> t[i][2], f |-> t[i][3]]]
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
InitPics(cfg) ==
  LET ints == Pairs(cfg.ints) IN
  [cfg |-> cfg, ints |-> ints, texts |-> TextTable(cfg.texts),
   sets |-> [k \in DOMAIN cfg.sets |-> [i \in DOMAIN cfg.sets[k] |->
              LET full == Meaning(ints, cfg.sets[k][i].doc) IN
              [id |-> full.id, full |-> full, lay |-> LayoutOf(ints, full)]]],
   devs |-> << >>, wrote |-> << >>]
With(s, e) == [s EXCEPT !.ints = @ \cup Pairs(e.ints), !.texts = TextTable(e.texts) @@ @]
DocOf(s, e) == IF e.src # 0 THEN [how |-> "element", doc |-> s.wrote[e.src]] ELSE s.cfg.docs[e.n]

PicsClauses(s, e) ==
  CASE e.e = "wrote" ->
         IF e.kind # "ok" THEN {"pics.write"}
         ELSE LET s1 == With(s, e)
                  d == s.devs[e.d] IN
              IF e.doc.g # "device" THEN {"pics.write"}
              ELSE IF NotWritten(Meaning2(s1, s.sets[d.set], "element", e.doc), d, e.single) THEN {"pics.written"} ELSE {}
    [] e.e = "loaded" ->
         LET d == DocOf(s, e)
             x == Meaning2(s, s.sets[e.set], d.how, d.doc) IN
         IF e.kind \notin {"ok", "sserr"} THEN {"pics.untyped"}
         ELSE IF ~x.ok THEN (IF e.kind = "ok" THEN {"pics.accepted"} ELSE {})
         ELSE IF e.kind # "ok" THEN (IF Doubtful(s, s.sets[e.set], d.how, d.doc) THEN {} ELSE {"pics.refused"})
         ELSE IF ShapeWrong(x, e.dev) THEN {"pics.shape"}
         ELSE IF ValuesWrong(x, e.dev) THEN {"pics.values"}
         ELSE IF ScaledWrong(x, e.dev) THEN {"pics.scaled"}
         ELSE IF FactorWrong(x, e.dev) THEN {"pics.factor"} ELSE {}
    [] e.e = "cmp" ->
         LET c == Compared(s, e.a, e.b) IN
         IF e.kind # "ok" THEN {"cmp.fails"}
         ELSE IF c = "eq" /\ ~e.eq THEN {"cmp.false"}
         ELSE IF c = "ne" /\ e.eq THEN {"cmp.missed"} ELSE {}
    [] e.e = "state" -> IF e.dev # Without(s.devs[e.d], {"set"}) THEN {"cmp.changes"} ELSE {}
    [] OTHER -> {}
PicsStep(s, e) ==
  CASE e.e = "built" -> [s EXCEPT !.devs = (e.d :> ([set |-> e.set] @@ e.dev)) @@ @]
    [] e.e = "wrote" -> [With(s, e) EXCEPT !.wrote = (e.d :> e.doc) @@ @]
    [] e.e = "loaded" /\ e.kind = "ok" -> [s EXCEPT !.devs = (e.d :> ([set |-> e.set] @@ e.dev)) @@ @]
    [] OTHER -> s
=============================================================================
