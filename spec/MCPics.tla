-------------------------------- MODULE MCPics --------------------------------
(***************************************************************************)
(* A writer, a reader and a comparison of devices, element by element, for   *)
(* a device with one model (scaled points in a fixed and in repeating        *)
(* blocks) and perhaps a model without definition.  Mut plants a design      *)
(* error.                                                                    *)
(***************************************************************************)
EXTENDS Pics
CONSTANTS Mut

I(n) == Num(IF n < 0 THEN 1 ELSE 0, SmallDigits(IF n < 0 THEN -n ELSE n), 0)
Txt(n) == ToString(n)
Nums == {0, 1, 2, 3, 4, 5, 6, 7, -1, 50, 65535, 40000, 44}
CodesOf(n) == LET d == IF n = 0 THEN <<0>> ELSE SmallDigits(IF n < 0 THEN -n ELSE n) IN
              (IF n < 0 THEN <<45>> ELSE <<>>) \o [i \in DOMAIN d |-> 48 + d[i]]
IntRows == {<<Txt(n), n>> : n \in Nums}
TextRows == SetToSeq({<<Txt(n), CodesOf(n), NoVal>> : n \in Nums} \cup {<<"x", <<120>>, NoVal>>, <<"", <<>>, NoVal>>})

El(g, a, x, k) == Element(g, a, x, k)
DefPt(id, off, t, more) == El("point", <<<<"id", id>>, <<"offset", Txt(off)>>, <<"type", t>>>> \o more, "", <<>>)
SmdxDoc(label, sym) == El("sunSpecModels", <<>>, "", <<
  El("model", <<<<"id", "2">>, <<"len", "3">>>>, "", <<
    El("block", <<<<"len", "2">>>>, "", <<[DefPt("A", 0, "int16", <<<<"sf", "S">>>>) EXCEPT !.k = <<El("symbol", <<<<"id", "ON">>>>, sym, <<>>)>>],
                                          DefPt("S", 1, "sunssf", <<>>)>>),
    El("block", <<<<"type", "repeating">>, <<"len", "1">>>>, "", <<DefPt("B", 0, "uint16", <<<<"sf", "S">>>>)>>)>>),
  El("strings", <<<<"id", "2">>>>, "", <<El("model", <<>>, "", <<El("label", <<>>, label, <<>>)>>)>>)>>)
Sets == << <<[doc |-> SmdxDoc("m", "1")]>>, <<[doc |-> SmdxDoc("n", "1")]>>, <<[doc |-> SmdxDoc("m", "2")]>>, <<>> >>
Cfg(docs) == [sets |-> Sets, docs |-> docs, ints |-> SetToSeq(IntRows), texts |-> TextRows]

(* devices as they are                                                      *)
Lay(n, base) == LayOut(LayoutOf(IntRows, Meaning(IntRows, Sets[1][1].doc)), 2, base + 4, 2 + n)
Scaled(b, k) == IF b.t = "n" THEN NoVal ELSE IF k.t = "n" THEN b ELSE Num(b.s, b.d, b.e + SmallOf(k))
Pt3(b, k) == [b |-> b, v |-> Scaled(b, k), k |-> k]
Dev(base, a, sf, bs, stray) ==
  [base |-> base, bymodel |-> TRUE,
   models |-> <<[id |-> 2, addr |-> base + 4, len |-> 2 + Len(bs), err |-> FALSE, blocks |-> Lay(Len(bs), base).blocks,
                 vals |-> <<[pts |-> <<Pt3(a, sf)>>, sfs |-> <<sf>>]>> \o [i \in DOMAIN bs |-> [pts |-> <<Pt3(bs[i], sf)>>, sfs |-> <<>>]]]>>
              \o (IF stray THEN <<[id |-> 7, addr |-> base + 8 + Len(bs), len |-> 5, err |-> TRUE, blocks |-> <<>>, vals |-> <<>>]>> ELSE <<>>)]
Reps == {NoVal, I(5), I(65535)}
BSeqs == {<<>>} \cup {<<x>> : x \in Reps} \cup (Reps \X Reps)
Devs == {Dev(0, a, sf, bs, stray) : a \in {NoVal, I(5)}, sf \in {NoVal, I(1)}, bs \in BSeqs, stray \in BOOLEAN}

(* documents that no writer writes                                          *)
P(id, impl, x) == El("point", <<<<"id", id>>>> \o (IF impl = "" THEN <<>> ELSE <<<<"impl", impl>>>>), x, <<>>)
FixedEl == El("block", <<>>, "", <<P("S", "", "1"), P("A", "true", "5")>>)
RepEls == {El("block", <<<<"type", "repeating">>>> \o i, "", ps) :
             i \in {<<>>} \cup {<<<<"index", x>>>> : x \in {"0", "1", "2", "3", "-1", "x"}}, ps \in {<<P("B", "", "7")>>, <<P("B", "false", "7")>>, <<P("B", "", "65535")>>, <<P("B", "", "")>>}}
        \cup {El("block", <<<<"type", "odd">>>>, "", <<>>), El("block", <<<<"type", "repeating">>>>, "", <<P("B", "", "x")>>),
              El("block", <<>>, "", <<El("q", <<>>, "", <<>>)>>), El("q", <<>>, "", <<>>)}
BlockSeqs == {<<FixedEl>>, <<>>} \cup {<<x>> : x \in RepEls} \cup {<<FixedEl, x>> : x \in RepEls} \cup {<<x, FixedEl>> : x \in RepEls}
             \cup {<<El("block", <<<<"type", "repeating">>>>, "", <<P("B", "", "3")>>), x>> : x \in RepEls}
DocDevs == {El("device", a, "", <<El("model", <<<<"id", "2">>>> \o l, "", bs)>>) : a \in {<<>>, <<<<"addr", "50">>>>}, l \in {<<>>, <<<<"len", "2">>>>, <<<<"len", "5">>>>}, bs \in BlockSeqs}
OddDocs == {[how |-> "file", doc |-> El("sunSpecPics", <<>>, "", <<El("date", <<>>, "", <<>>), El("device", <<>>, "", <<>>)>>)],
            [how |-> "file", doc |-> El("sunSpecPics", <<>>, "", <<>>)], [how |-> "file", doc |-> El("sunSpecData", <<>>, "", <<El("device", <<>>, "", <<>>)>>)],
            [how |-> "element", doc |-> El("dev", <<>>, "", <<>>)],
            [how |-> "element", doc |-> El("device", <<<<"addr", "x">>>>, "", <<>>)],
            [how |-> "element", doc |-> El("device", <<>>, "", <<El("q", <<<<"id", "2">>, <<"len", "2">>>>, "", <<>>)>>)],
            [how |-> "element", doc |-> El("device", <<>>, "", <<El("model", <<<<"len", "2">>>>, "", <<>>)>>)],
            [how |-> "element", doc |-> El("device", <<>>, "", <<El("model", <<<<"id", "2">>, <<"len", "x">>>>, "", <<>>)>>)]}
Docs == {[how |-> "element", doc |-> d] : d \in DocDevs} \cup OddDocs

VARIABLES dev, single, doc, what, pc, todo, cur, s, bad
vars == <<dev, single, doc, what, pc, todo, cur, s, bad>>
(* cur: the model being read: [base, vals (unscaled), sfv (scale factors taken over), n, failed]      *)
Cur0 == [base |-> 40000, vals |-> <<>>, n |-> 0, failed |-> FALSE, stray |-> FALSE, len |-> 0, any |-> FALSE]
Init == /\ \/ dev \in Devs /\ doc = [how |-> "element", doc |-> El("", <<>>, "", <<>>)] /\ what = "write"
           \/ dev = Dev(0, NoVal, NoVal, <<>>, FALSE) /\ doc \in Docs /\ what = "read"
        /\ single \in (IF what = "write" THEN BOOLEAN ELSE {FALSE})
        /\ pc = what /\ todo = <<>> /\ cur = Cur0 /\ bad = {}
        /\ s = PicsStep(InitPics(Cfg(<<doc>>)), [e |-> "built", d |-> 1, set |-> 1, dev |-> dev])
Emit(e) == bad' = PicsClauses(s, e) /\ s' = PicsStep(s, e)

-----------------------------------------------------------------------------
WPt(id, v) == LET x == IF v.t = "n" THEN "" ELSE Txt(SmallOf(v)) IN
  P(id, IF v.t = "n" /\ Mut # "impl" THEN "false" ELSE "", IF v.t = "i" /\ v = I(65535) THEN "65535" ELSE x)
WBlocks == LET m == dev.models[1] IN
  <<El("block", <<>>, "", <<WPt("A", IF Mut = "scaledtext" THEN m.vals[1].pts[1].v ELSE m.vals[1].pts[1].b), WPt("S", m.vals[1].sfs[1])>>)>>
  \o [i \in 1..(IF single \/ Mut = "onlyfirst" THEN (IF Len(m.vals) > 1 THEN 1 ELSE 0) ELSE Len(m.vals) - 1) |->
       El("block", <<<<"type", "repeating">>>> \o (IF i > 1 /\ Mut # "noindex" THEN <<<<"index", Txt(i)>>>> ELSE <<>>), "", <<WPt("B", m.vals[i + 1].pts[1].b)>>)]
Written == El("device", <<>>, "", [i \in DOMAIN dev.models |-> LET m == dev.models[i] IN
  El("model", <<<<"id", Txt(m.id)>>, <<"len", Txt(m.len)>>>>, "", IF i = 1 THEN WBlocks ELSE <<>>)])
Write == /\ pc = "write"
         /\ Emit([e |-> "wrote", d |-> 1, kind |-> "ok", single |-> single, doc |-> Written, ints |-> <<>>, texts |-> TextRows])
         /\ doc' = [how |-> "element", doc |-> Written] /\ pc' = "read" /\ UNCHANGED <<dev, single, what, todo, cur>>

-----------------------------------------------------------------------------
Finish(c) == pc' = "read3" /\ cur' = c /\ UNCHANGED <<dev, single, doc, what, s, bad>>
Fail == Finish([cur EXCEPT !.failed = TRUE]) /\ todo' = <<>>
Top == IF doc.how = "element" THEN <<doc.doc>> ELSE Kids(doc.doc, "device")
Read == /\ pc = "read"
        /\ IF (doc.how = "file" /\ doc.doc.g # "sunSpecPics" /\ Mut # "laxroot") \/ Top = <<>> \/ (Top # <<>> /\ Top[1].g # "device") THEN Fail
           ELSE LET d == Top[1] IN
             IF (Has(d, "addr") /\ ~HasInt(IntRows, d, "addr")) \/ (d.k # <<>> /\ d.k[1].g # "model" /\ Mut # "laxmodel") THEN Fail
             ELSE IF d.k = <<>> THEN Finish([cur EXCEPT !.base = IF Has(d, "addr") THEN IntAt(IntRows, d, "addr") ELSE 40000]) /\ todo' = <<>>
             ELSE LET m == d.k[1]
                      ln == IF Has(m, "len") /\ Mut # "lenignored" THEN IntAt(IntRows, m, "len") ELSE 3 IN
               IF ~HasInt(IntRows, m, "id") \/ (Has(m, "len") /\ ~HasInt(IntRows, m, "len")) THEN Fail
               ELSE /\ cur' = [cur EXCEPT !.base = IF Has(d, "addr") /\ Mut # "noaddr" THEN IntAt(IntRows, d, "addr") ELSE 40000,
                                          !.len = ln, !.n = ln - 2, !.any = TRUE, !.stray = Len(d.k) > 1,
                                          !.vals = <<[b |-> <<NoVal, NoVal>>, k |-> NoVal]>> \o [i \in 1..(ln - 2) |-> [b |-> <<NoVal>>, k |-> NoVal]]]
                    /\ todo' = m.k /\ pc' = "read2" /\ UNCHANGED <<dev, single, doc, what, s, bad>>
Put(old, p, big) ==
  LET v == I(IF p.x = "" THEN 0 ELSE IntOf(IntRows, p.x)) IN
  IF At(p, "impl", "true") = "false" THEN (IF Mut = "sticky" THEN old ELSE NoVal)
  ELSE IF p.x = "" THEN old
  ELSE IF big /\ v = I(65535) THEN (IF Mut = "sentinel" THEN v ELSE IF Mut = "keepold" THEN old ELSE NoVal)
  ELSE v
ApplyTo(c, i, b) ==
  LET one(v, p) == IF i = 1 THEN (IF At(p, "id", "") = "A" THEN [v EXCEPT !.b[1] = Put(@, p, FALSE)]
                                  ELSE IF At(p, "id", "") = "S" THEN [v EXCEPT !.b[2] = Put(@, p, FALSE)] ELSE v)
                   ELSE (IF At(p, "id", "") = "B" THEN [v EXCEPT !.b[1] = Put(@, p, TRUE)] ELSE v)
      v == FoldLeft(one, c.vals[i], b.k)
      sf == IF i = 1 THEN v.b[2] ELSE c.vals[1].b[2] IN
  [c EXCEPT !.vals[i] = [v EXCEPT !.k = sf]]
Read2 == /\ pc = "read2"
         /\ IF todo = <<>> THEN
               /\ cur' = IF Mut = "early" THEN cur ELSE [cur EXCEPT !.vals = [i \in DOMAIN @ |-> [@[i] EXCEPT !.k = cur.vals[1].b[2]]]]
               /\ pc' = "read3" /\ UNCHANGED <<dev, single, doc, what, s, bad, todo>>
            ELSE LET b == todo[1]
                     t == At(b, "type", "fixed")
                     ix == IntAt(IntRows, b, "index")
                     wrongpt == \E j \in DOMAIN b.k : (b.k[j].g # "point" /\ Mut # "laxpoint") \/ (b.k[j].x = "x" /\ At(b.k[j], "id", "") = "B" /\ cur.n > 0) IN
              IF b.g # "block" \/ t \notin {"fixed", "repeating"} \/ (t = "repeating" /\ Has(b, "index") /\
                   (~HasInt(IntRows, b, "index") \/ ix > cur.n \/ (ix <= 0 /\ Mut # "index0"))) \/ wrongpt THEN Fail
              ELSE /\ cur' = IF t = "fixed" THEN ApplyTo(cur, 1, b)
                             ELSE IF ~Has(b, "index") THEN FoldLeft(LAMBDA c, i : ApplyTo(c, i + 1, b), cur,
                                    [i \in 1..(IF Mut = "norepeat" /\ cur.n > 0 THEN 1 ELSE cur.n) |-> i])
                             ELSE IF ix < 0 THEN cur ELSE ApplyTo(cur, ix + 1, b)
                   /\ todo' = Tail(todo) /\ UNCHANGED <<pc, dev, single, doc, what, s, bad>>
(* the device that was read                                                 *)
Dev2 == [base |-> cur.base, bymodel |-> TRUE, models |->
   IF ~cur.any THEN <<>>
   ELSE <<[id |-> 2, addr |-> cur.base + 4, len |-> cur.len, err |-> FALSE, blocks |-> Lay(cur.n, cur.base).blocks,
           vals |-> [i \in DOMAIN cur.vals |-> [pts |-> <<Pt3(cur.vals[i].b[1], cur.vals[i].k)>>, sfs |-> IF i = 1 THEN <<cur.vals[1].b[2]>> ELSE <<>>]]]>>
        \o (IF cur.stray THEN <<[id |-> 7, addr |-> cur.base + 4 + (IF Mut = "chain" THEN 3 ELSE cur.len) + 2, len |-> 5, err |-> TRUE, blocks |-> <<>>, vals |-> <<>>]>> ELSE <<>>)]
Read3 == /\ pc = "read3"
         /\ Emit(IF cur.failed THEN [e |-> "loaded", d |-> 2, set |-> 1, src |-> (IF what = "write" THEN 1 ELSE 0), n |-> 1, kind |-> "sserr"]
                 ELSE [e |-> "loaded", d |-> 2, set |-> 1, src |-> (IF what = "write" THEN 1 ELSE 0), n |-> 1, kind |-> "ok", dev |-> Dev2])
         /\ pc' = IF what = "read" \/ cur.failed THEN "end" ELSE "vary"
         /\ UNCHANGED <<dev, single, doc, what, todo, cur>>

-----------------------------------------------------------------------------
(* another device to compare with: the one read, or that with other          *)
(* definitions, without its last model, or with one value changed            *)
Vary == /\ pc = "vary" /\ pc' = "cmp"
        /\ \E v \in {"same", "set2", "set3", "set4", "drop", "value", "sf", "len7"} :
             LET d == IF v = "drop" THEN [Dev2 EXCEPT !.models = SubSeq(@, 1, Len(@) - 1)]
                      ELSE IF v = "value" THEN [Dev2 EXCEPT !.models[1].vals[1].pts[1] = Pt3(I(7), @.k)]
                      ELSE IF v = "sf" THEN Dev(Dev2.base, Dev2.models[1].vals[1].pts[1].b, I(2), [i \in 1..(Len(Dev2.models[1].vals) - 1) |-> Dev2.models[1].vals[i + 1].pts[1].b], cur.stray)
                      ELSE IF v = "len7" /\ cur.stray THEN [Dev2 EXCEPT !.models[2].len = 6]
                      ELSE IF v = "set4" THEN [Dev2 EXCEPT !.models[1] = [@ EXCEPT !.err = TRUE, !.blocks = <<>>, !.vals = <<>>]]
                      ELSE Dev2
                 set == IF v = "set2" THEN 2 ELSE IF v = "set3" THEN 3 ELSE IF v = "set4" THEN 4 ELSE 1 IN
             /\ s' = PicsStep(s, [e |-> "built", d |-> 2, set |-> set, dev |-> d]) /\ cur' = [cur EXCEPT !.vals = <<set, d>>]
        /\ UNCHANGED <<dev, single, doc, what, todo, bad>>
(* the comparison: first difference found                                   *)
Differ(x, sx, y, sy) ==
  LET val(p, q) == IF Mut = "half" THEN p.b.t # "n" /\ p.b # q.b ELSE p.b # q.b
      sc(p, q) == Mut # "nosf" /\ p.k # q.k
      mod(i) == LET m == x.models[i]
                    n == y.models[i] IN
        \/ Len(m.blocks) # Len(n.blocks)
        \/ (m.blocks = <<>> /\ (m.id # n.id \/ (m.len # n.len /\ Mut # "nolen")))
        \/ (m.blocks # <<>> /\ n.blocks # <<>> /\
            (\/ (Mut # "nolabel" /\ sx[1].full.label # sy[1].full.label)
             \/ (Mut # "nosym" /\ sx[1].full.fixed # sy[1].full.fixed)
             \/ \E j \in 1..(IF Mut = "fixedonly" THEN 1 ELSE Len(m.vals)) : val(m.vals[j].pts[1], n.vals[j].pts[1]) \/ sc(m.vals[j].pts[1], n.vals[j].pts[1]))) IN
  \/ (Len(x.models) # Len(y.models) /\ Mut # "nocount")
  \/ \E i \in DOMAIN x.models : i <= Len(y.models) /\ mod(i)
Cmp == /\ pc \in {"cmp", "back"}
       /\ LET a == s.devs[1]
              b == s.devs[2] IN
          IF pc = "cmp" THEN Emit([e |-> "cmp", a |-> 1, b |-> 2, kind |-> "ok", eq |-> ~Differ(a, s.sets[a.set], b, s.sets[b.set])]) /\ pc' = "back"
          ELSE Emit([e |-> "cmp", a |-> 2, b |-> 1, kind |-> "ok", eq |-> ~Differ(b, s.sets[b.set], a, s.sets[a.set])]) /\ pc' = "state"
       /\ UNCHANGED <<dev, single, doc, what, todo, cur>>
State == /\ pc = "state" /\ pc' = "end"
         /\ Emit([e |-> "state", d |-> 1, dev |-> IF Mut = "touches" THEN [dev EXCEPT !.base = 9] ELSE dev]) /\ UNCHANGED <<dev, single, doc, what, todo, cur>>
Next == bad = {} /\ (Write \/ Read \/ Read2 \/ Read3 \/ Vary \/ Cmp \/ State)
Spec == Init /\ [][Next]_vars
NoViolation == bad = {}
=============================================================================
