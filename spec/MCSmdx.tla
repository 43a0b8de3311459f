-------------------------------- MODULE MCSmdx --------------------------------
(***************************************************************************)
(* A loader of model definitions that goes through the document once, point *)
(* by point, and then through the strings.  Mut plants a design error.       *)
(***************************************************************************)
EXTENDS Smdx, TLC, Json
CONSTANTS Big, Mut, Record

E(g, a, x, k) == Element(g, a, x, k)
Ints == {<<"0", 0>>, <<"1", 1>>, <<"2", 2>>, <<"64001", 64001>>}
Sym(i, v, t) == E("symbol", <<<<"id", i>>>>, v, IF t = "" THEN <<>> ELSE <<E("label", <<>>, t, <<>>)>>)
Pt(a, k) == E("point", a, "", k)
P1 == Pt(<<<<"id", "A">>, <<"offset", "0">>, <<"type", "int16">>>>, <<>>)
Points == <<
  <<P1>>, <<>>,
  <<Pt(P1.a \o <<<<"mandatory", "true">>, <<"access", "rw">>, <<"sf", "S">>, <<"units", "V">>, <<"len", "2">>>>, <<E("label", <<>>, "own", <<>>)>>),
    Pt(<<<<"id", "S">>, <<"offset", "1">>, <<"type", "sunssf">>>>, <<Sym("X", "1", ""), Sym("Y", "2", "y")>>)>>,
  <<Pt(<<<<"id", "A">>, <<"offset", "0">>, <<"type", "enum16">>>>, <<Sym("X", "1", "")>>),
    Pt(<<<<"id", "B">>, <<"offset", "1">>, <<"type", "enum16">>>>, <<Sym("X", "2", "")>>)>>,
  <<P1, Pt(<<<<"id", "B">>, <<"offset", "1">>, <<"type", "uint32">>>>, <<>>), P1>>,
  <<Pt(<<<<"id", "A">>, <<"type", "int16">>>>, <<>>)>>,
  <<Pt(<<<<"id", "A">>, <<"offset", "0">>, <<"type", "string">>>>, <<>>)>>,
  <<P1, Pt(<<<<"id", "B">>, <<"offset", "1">>, <<"type", "int8">>>>, <<>>)>>,
  <<Pt(P1.a \o <<<<"access", "w">>>>, <<>>)>>,
  <<Pt(P1.a, <<E("symbol", <<>>, "1", <<>>)>>)>> >>
Blocks == {E("block", a, "", Points[p]) :
             a \in {<<<<"len", "2">>>>, <<<<"type", "fixed">>, <<"len", "1">>>>, <<<<"type", "repeating">>, <<"len", "2">>, <<"name", "row">>>>,
                    <<<<"type", "loose">>, <<"len", "2">>>>, <<<<"type", "fixed">>>>},
             p \in DOMAIN Points}
Str(id, k) == E("strings", <<<<"id", id>>>>, "", k)
L(g, x) == E(g, <<>>, x, <<>>)
Said(i, k) == E("point", <<<<"id", i>>>>, "", k)
Strings == {<<>>, <<Str("64001", <<E("model", <<>>, "", <<L("label", "m"), L("notes", "n")>>), Said("A", <<L("label", "a"), Sym("X", "", "ax")>>)>>)>>,
            <<Str("2", <<E("model", <<>>, "", <<L("label", "other")>>), Said("A", <<L("label", "other")>>)>>),
              Str("64001", <<Said("A", <<L("notes", "an")>>), Said("B", <<L("description", "b"), Sym("X", "", "bx")>>), Said("S", <<Sym("Y", "", "sy")>>), Said("Z", <<L("label", "z")>>)>>)>>}
Models == {<<<<"id", "64001">>, <<"len", "2">>>>, <<<<"id", "64001">>>>, <<<<"id", "64001">>, <<"len", "2">>, <<"name", "mod">>>>}
Seqs == {<<>>} \cup {<<b>> : b \in Blocks} \cup (Blocks \X Blocks)
Docs == {E("sunSpecModels", <<>>, "", <<E("model", m, "", bs)>> \o st) : m \in (IF Big THEN Models ELSE {<<<<"id", "64001">>, <<"len", "2">>>>}),
         bs \in Seqs, st \in Strings}

VARIABLES doc, pc, b, p, r, left, done
vars == <<doc, pc, b, p, r, left, done>>
M == Kids(doc, "model")[1]
Def0 == [id |-> 0, len |-> 0, name |-> "", fixed |-> NoBlock, hasrep |-> FALSE, rep |-> NoBlock, hasfix |-> FALSE] @@ NoTexts
Init == /\ doc \in Docs /\ pc = "model" /\ b = 1 /\ p = 1 /\ r = Def0 /\ left = <<>> /\ done = ""

Fail == pc' = "end" /\ done' = "sserr" /\ UNCHANGED <<b, p, r, left, doc>>
Model == /\ pc = "model"
         /\ IF ~HasInt(Ints, M, "len") THEN Fail
            ELSE /\ r' = [r EXCEPT !.id = IntAt(Ints, M, "id"), !.len = IntAt(Ints, M, "len"), !.name = At(M, "name", "model_64001")]
                 /\ pc' = "block" /\ UNCHANGED <<b, p, left, done, doc>>

Bs == Kids(M, "block")
Slot(t) == IF t = "fixed" THEN "fixed" ELSE "rep"
Block == /\ pc = "block"
         /\ IF b > Len(Bs) THEN /\ pc' = "strings" /\ b' = 1
                                /\ left' = SelectSeq(Kids(doc, "strings"), LAMBDA s : Mut = "anyid" \/ At(s, "id", "") = "64001")
                                /\ UNCHANGED <<p, r, done, doc>>
            ELSE LET e == Bs[b]
                     t == At(e, "type", "fixed") IN
                 IF t \notin {"fixed", "repeating"} \/ (~Has(e, "len") /\ Mut # "nolen") THEN Fail
                 ELSE IF Mut # "dupblock" /\ ((t = "fixed" /\ r.hasfix) \/ (t = "repeating" /\ r.hasrep)) THEN Fail
                 ELSE /\ r' = [(IF t = "fixed" THEN [r EXCEPT !.hasfix = TRUE] ELSE [r EXCEPT !.hasrep = TRUE])
                               EXCEPT ![Slot(t)] = [type |-> t, len |-> IF Has(e, "len") THEN IntAt(Ints, e, "len") ELSE 0,
                                                    name |-> At(e, "name", t), pts |-> <<>>]]
                      /\ pc' = "point" /\ p' = 1 /\ UNCHANGED <<b, left, done, doc>>

(* symbols collected so far, by point and symbol                            *)
AllSyms(d) == FlattenSeq([i \in 1..2 |-> LET ps == (<<d.fixed, d.rep>>[i]).pts IN FlattenSeq([j \in DOMAIN ps |-> ps[j].syms])])
Point == /\ pc = "point"
         /\ LET e == Bs[b]
                slot == Slot(At(e, "type", "fixed"))
                ps == Kids(e, "point") IN
            IF p > Len(ps) THEN pc' = "block" /\ b' = b + 1 /\ UNCHANGED <<p, r, left, done, doc>>
            ELSE LET q == ps[p]
                     t == At(q, "type", "")
                     bad == \/ ~Has(q, "id") \/ ~Has(q, "offset") \/ t \notin Types
                            \/ (t = "string" /\ ~Has(q, "len")) \/ At(q, "access", "r") \notin {"r", "rw"}
                            \/ \E i \in DOMAIN q.k : q.k[i].g = "symbol" /\ ~Has(q.k[i], "id")
                     twice == \E i \in DOMAIN r[slot].pts : r[slot].pts[i].id = At(q, "id", "")
                     sym(e2) == LET old == SelectSeq(AllSyms(r), LAMBDA x : x.id = At(e2, "id", "")) IN
                                IF Mut = "sharesym" /\ old # <<>> THEN old[1]
                                ELSE [id |-> At(e2, "id", ""), value |-> e2.x] @@ Texts(e2, NoTexts)
                     new == [id |-> At(q, "id", ""), off |-> IntAt(Ints, q, "offset"), t |-> t,
                             len |-> IF Has(q, "len") /\ (Mut # "lenignored" \/ t = "string") THEN IntAt(Ints, q, "len") ELSE LenOf[t],
                             mand |-> At(q, "mandatory", IF Mut = "mandatory" THEN "true" ELSE "false") = "true",
                             rw |-> At(q, "access", "r") = "rw",
                             hassf |-> Has(q, "sf"), sf |-> At(q, "sf", ""), hasunits |-> Has(q, "units"), units |-> At(q, "units", ""),
                             syms |-> [i \in DOMAIN Kids(q, "symbol") |-> sym(Kids(q, "symbol")[i])]] @@ Texts(q, NoTexts) IN
                 IF bad \/ (twice /\ Mut # "duppoint") THEN Fail
                 ELSE /\ r' = [r EXCEPT ![slot].pts = Append(@, new)]
                      /\ p' = p + 1 /\ UNCHANGED <<pc, b, left, done, doc>>

Apply(pt, e) ==
  LET base == IF Mut = "erase" THEN NoTexts ELSE pt
      more(y) == LET c == SelectSeq(Kids(e, "symbol"), LAMBDA x : At(x, "id", "") = y.id) IN
                 IF c = <<>> THEN y ELSE Texts(c[1], y) @@ y IN
  [Texts(e, base) @@ pt EXCEPT !.syms = [i \in DOMAIN @ |-> more(@[i])]]
Strs == /\ pc = "strings"
        /\ IF left = <<>> THEN pc' = "end" /\ done' = "ok" /\ UNCHANGED <<b, p, r, left, doc>>
           ELSE LET s == left[1]
                    on(ps) == [i \in DOMAIN ps |->
                                 FoldLeft(LAMBDA q, e : IF At(e, "id", "") = q.id THEN Apply(q, e) ELSE q, ps[i], Kids(s, "point"))]
                    m == FoldLeft(LAMBDA t, e : Texts(e, t), [label |-> r.label, desc |-> r.desc, notes |-> r.notes], Kids(s, "model")) IN
                /\ r' = m @@ [r EXCEPT !.fixed.pts = on(@), !.rep.pts = IF Mut = "fixedonly" THEN @ ELSE on(@)]
                /\ left' = Tail(left) /\ UNCHANGED <<pc, b, p, done, doc>>
Next == Model \/ Block \/ Point \/ Strs
Spec == Init /\ [][Next]_vars

Seen == [e |-> "load", n |-> 1, kind |-> done, def |-> r]
AsWritten == pc = "end" =>
  Clauses([cfg |-> [docs |-> <<[doc |-> doc, wf |-> TRUE]>>], ints |-> Ints], Seen) = {}
PrintDocs == (Record /\ pc = "end") => PrintT("SCRIPT " \o ToJson(doc))
=============================================================================
