--------------------------------- MODULE Smdx ---------------------------------
(***************************************************************************)
(* What a model definition document says.                                   *)
(*                                                                          *)
(* cfg = [ints, docs]; docs[n] = [id, doc, wf]: the document stored as the   *)
(* definition of model id, wf: whether its text is well-formed XML.  Events:                                         *)
(*   load  model definition n was asked for: kind ok, sserr or other, and   *)
(*         what the definition object says (def)                            *)
(***************************************************************************)
EXTENDS Xml, SequencesExt, TLC

LenOf == [int16 |-> 1, uint16 |-> 1, count |-> 1, acc16 |-> 1, enum16 |-> 1, bitfield16 |-> 1, pad |-> 1, sunssf |-> 1,
          int32 |-> 2, uint32 |-> 2, acc32 |-> 2, enum32 |-> 2, bitfield32 |-> 2, ipaddr |-> 2, float32 |-> 2,
          int64 |-> 4, uint64 |-> 4, acc64 |-> 4, eui48 |-> 4, ipv6addr |-> 8]
Types == DOMAIN LenOf \cup {"string"}

SymbolBad(e) == ~Has(e, "id")
PointBad(ints, e) ==
  \/ ~Has(e, "id") \/ ~HasInt(ints, e, "offset") \/ ~Has(e, "type")
  \/ At(e, "type", "") \notin Types
  \/ At(e, "type", "") = "string" /\ ~Has(e, "len")
  \/ Has(e, "len") /\ ~HasInt(ints, e, "len")
  \/ At(e, "mandatory", "false") \notin {"false", "true"}
  \/ At(e, "access", "r") \notin {"r", "rw"}
  \/ \E i \in DOMAIN Kids(e, "symbol") : SymbolBad(Kids(e, "symbol")[i])
Twice(s, key(_)) == \E i, j \in DOMAIN s : i < j /\ key(s[i]) = key(s[j])
BlockBad(ints, e) ==
  \/ At(e, "type", "fixed") \notin {"fixed", "repeating"}
  \/ ~HasInt(ints, e, "len")
  \/ \E i \in DOMAIN Kids(e, "point") : PointBad(ints, Kids(e, "point")[i])
  \/ Twice(Kids(e, "point"), LAMBDA p : At(p, "id", ""))
(* a definition that must be rejected                                       *)
Malformed(ints, doc) ==
  LET m == Kids(doc, "model")[1]
      bs == Kids(m, "block") IN
  \/ ~HasInt(ints, m, "id") \/ ~HasInt(ints, m, "len")
  \/ \E i \in DOMAIN bs : BlockBad(ints, bs[i])
  \/ Twice(bs, LAMBDA b : At(b, "type", "fixed"))

-----------------------------------------------------------------------------
Texts(e, old) == [label |-> TextOf(e, "label", old.label), desc |-> TextOf(e, "description", old.desc),
                  notes |-> TextOf(e, "notes", old.notes)]
NoTexts == [label |-> "", desc |-> "", notes |-> ""]
Named(s, id) == SelectSeq(s, LAMBDA e : At(e, "id", "") = id)
(* what the elements of es say about texts, one after the other             *)
TextsOf(es, old) == FoldLeft(LAMBDA t, e : Texts(e, t), old, es)

SymbolOf(e, strings) ==
  LET own == Texts(e, NoTexts)
      more == FlattenSeq([i \in DOMAIN strings |-> Named(Kids(strings[i], "symbol"), At(e, "id", ""))]) IN
  [id |-> At(e, "id", ""), value |-> e.x] @@ TextsOf(more, own)
(* strings: the point elements of the strings section that name this point  *)
PointOf(ints, e, strings) ==
  LET t == At(e, "type", "") IN
  [id |-> At(e, "id", ""), off |-> IntAt(ints, e, "offset"), t |-> t,
   len |-> IF Has(e, "len") THEN IntAt(ints, e, "len") ELSE LenOf[t],
   mand |-> At(e, "mandatory", "false") = "true", rw |-> At(e, "access", "r") = "rw",
   hassf |-> Has(e, "sf"), sf |-> At(e, "sf", ""), hasunits |-> Has(e, "units"), units |-> At(e, "units", ""),
   syms |-> [i \in DOMAIN Kids(e, "symbol") |-> SymbolOf(Kids(e, "symbol")[i], strings)]]
  @@ TextsOf(strings, Texts(e, NoTexts))
BlockOf(ints, e, strings) ==
  LET t == At(e, "type", "fixed") IN
  [type |-> t, len |-> IntAt(ints, e, "len"), name |-> At(e, "name", t),
   pts |-> [i \in DOMAIN Kids(e, "point") |->
             PointOf(ints, Kids(e, "point")[i], Named(strings, At(Kids(e, "point")[i], "id", "")))]]
NoBlock == [type |-> "fixed", len |-> 0, name |-> "", pts |-> <<>>]
(* a well-formed definition                                                 *)
Meaning(ints, doc) ==
  LET m == Kids(doc, "model")[1]
      ss == Named(Kids(doc, "strings"), At(m, "id", ""))
      strings == FlattenSeq([i \in DOMAIN ss |-> Kids(ss[i], "point")])
      of(t) == SelectSeq(Kids(m, "block"), LAMBDA b : At(b, "type", "fixed") = t)
      fixed == of("fixed")
      rep == of("repeating")
      texts == TextsOf(FlattenSeq([i \in DOMAIN ss |-> Kids(ss[i], "model")]), NoTexts) IN
  [id |-> IntAt(ints, m, "id"), len |-> IntAt(ints, m, "len"), name |-> At(m, "name", "model_" \o At(m, "id", "")),
   fixed |-> IF fixed = <<>> THEN NoBlock ELSE BlockOf(ints, fixed[1], strings),
   hasrep |-> rep # <<>>,
   rep |-> IF rep = <<>> THEN NoBlock ELSE BlockOf(ints, rep[1], strings)] @@ texts

-----------------------------------------------------------------------------
InitState(cfg) == [cfg |-> cfg, ints |-> {<<cfg.ints[i][1], cfg.ints[i][2]>> : i \in DOMAIN cfg.ints}]

(* a strings section names points by id alone: texts for an id both blocks use are not judged *)
Ids(b) == {b.pts[i].id : i \in DOMAIN b.pts}
Ambiguous(doc, x) ==
  LET ss == Kids(doc, "strings") IN
  Ids(x.fixed) \cap Ids(x.rep) \cap UNION {{At(Kids(ss[i], "point")[j], "id", "") : j \in DOMAIN Kids(ss[i], "point")} : i \in DOMAIN ss}
Mask(b, amb) == [b EXCEPT !.pts = [i \in DOMAIN @ |-> IF @[i].id \notin amb THEN @[i]
                   ELSE [NoTexts @@ @[i] EXCEPT !.syms = [j \in DOMAIN @ |-> NoTexts @@ @[j]]]]]
Plain(b) == [b EXCEPT !.pts = [i \in DOMAIN @ |-> [n \in {"id", "off", "t", "len", "mand", "rw", "hassf", "sf", "hasunits", "units"} |-> @[i][n]]]]
TextsIn(b) == [i \in DOMAIN b.pts |-> <<b.pts[i].label, b.pts[i].desc, b.pts[i].notes>>]
Syms(b) == [i \in DOMAIN b.pts |-> b.pts[i].syms]
BlockClauses(x, o, opt) ==
  LET absent == x.type = "fixed" /\ x.len = 0 /\ x.pts = <<>> /\ x.name = ""
      y == IF absent THEN [x EXCEPT !.name = o.name] ELSE x IN
  (IF Plain(y) # Plain(o) THEN {IF Len(y.pts) = Len(o.pts) /\ [y EXCEPT !.pts = <<>>] = [o EXCEPT !.pts = <<>>]
                                THEN "smdx.point" ELSE "smdx.block"} ELSE {})
  \cup (IF Len(y.pts) = Len(o.pts)
        THEN (IF TextsIn(y) # TextsIn(o) THEN {"smdx.texts"} ELSE {})
             \cup (IF Syms(y) # Syms(o) THEN {"smdx.symbols"} ELSE {})
        ELSE {})
Clauses(s, e) ==
  LET doc == s.cfg.docs[e.n].doc IN
  IF e.kind \notin {"ok", "sserr"} THEN {"smdx.untyped"}
  ELSE IF ~s.cfg.docs[e.n].wf \/ Malformed(s.ints, doc) THEN (IF e.kind = "ok" THEN {"smdx.accepted"} ELSE {})
  ELSE IF e.kind # "ok" THEN {"smdx.rejected"}
  ELSE LET full == Meaning(s.ints, doc)
           amb == Ambiguous(doc, full)
           x == [full EXCEPT !.fixed = Mask(@, amb), !.rep = Mask(@, amb)]
           o == [e.def EXCEPT !.fixed = Mask(@, amb), !.rep = Mask(@, amb)] IN
       (IF x.id # o.id \/ x.len # o.len \/ x.name # o.name THEN {"smdx.model"} ELSE {})
       \cup (IF <<x.label, x.desc, x.notes>> # <<o.label, o.desc, o.notes>> THEN {"smdx.texts"} ELSE {})
       \cup BlockClauses(x.fixed, o.fixed, TRUE)
       \cup (IF x.hasrep # o.hasrep THEN {"smdx.block"} ELSE IF x.hasrep THEN BlockClauses(x.rep, o.rep, FALSE) ELSE {})
Step(s, e) == s
=============================================================================
