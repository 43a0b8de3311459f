--------------------------------- MODULE Sdx ----------------------------------
(***************************************************************************)
(* SunSpec data records and their documents.                                *)
(*                                                                          *)
(* A record is [v, devs]; a device has the optional texts lid, ns, id, if,   *)
(* man, mod, sn, t (time), cid and models; a model an id, optional ns and    *)
(* index x, and points; a point an id, optional index x, scale factor sf,    *)
(* time t and value val.  Optional things are sequences of at most one.      *)
(* Built values are [k, text, n]: texts, integers or floating point numbers  *)
(* n; built times are seconds since 1970.  Read values and times are texts.  *)
(*                                                                          *)
(* Events: built (a record through the API), doc (the document written for   *)
(* it), back (what reading it gave), again (the document written for that),  *)
(* parse (what reading document n of cfg.docs gave).                         *)
(***************************************************************************)
EXTENDS Xml, SequencesExt, TLC

DevFields == {"lid", "ns", "id", "if", "man", "mod", "sn", "t", "cid"}
Opt(e, n) == IF Has(e, n) THEN <<At(e, n, "")>> ELSE <<>>
OptInt(ints, e, n) == IF Has(e, n) THEN <<IntAt(ints, e, n)>> ELSE <<>>
OptText(x) == IF x = "" THEN <<>> ELSE <<x>>
(* the first instance has no index                                          *)
Idx(x) == IF x = <<1>> THEN <<>> ELSE x

PointIn(ints, e) == [id |-> At(e, "id", ""), x |-> Idx(OptInt(ints, e, "index")), sf |-> OptInt(ints, e, "sf"), t |-> Opt(e, "t"), val |-> OptText(e.x)]
ModelIn(ints, e) == [id |-> At(e, "id", ""), ns |-> Opt(e, "ns"), x |-> Idx(OptInt(ints, e, "x")),
                     pts |-> [i \in DOMAIN e.k |-> PointIn(ints, e.k[i])]]
DeviceIn(ints, e) == [f \in DevFields \cup {"models"} |-> IF f = "models" THEN [i \in DOMAIN e.k |-> ModelIn(ints, e.k[i])] ELSE Opt(e, f)]
Meaning(ints, doc) == [v |-> Opt(doc, "v"), devs |-> [i \in DOMAIN doc.k |-> DeviceIn(ints, doc.k[i])]]
(* a document with an element where it does not belong                      *)
Unexpected(doc) ==
  \/ doc.g # "sunSpecData"
  \/ \E i \in DOMAIN doc.k : LET d == doc.k[i] IN
       \/ d.g # "d"
       \/ \E j \in DOMAIN d.k : LET m == d.k[j] IN m.g # "m" \/ \E l \in DOMAIN m.k : m.k[l].g # "p"

-----------------------------------------------------------------------------
Pad2(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)
(* the UTC time n seconds after 1970                                        *)
TimeText(n) ==
  LET days == n \div 86400
      secs == n % 86400
      z == days + 719468                      \* days since March 1st of year 0
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      day == doy - (153 * mp + 2) \div 5 + 1
      mon == IF mp < 10 THEN mp + 3 ELSE mp - 9
      year == yoe + era * 400 + (IF mon <= 2 THEN 1 ELSE 0) IN
  ToString(year) \o "-" \o Pad2(mon) \o "-" \o Pad2(day) \o "T" \o Pad2(secs \div 3600) \o ":" \o Pad2((secs \div 60) % 60) \o ":" \o Pad2(secs % 60) \o "Z"

(* a read value against a built one; nums: which texts are which numbers     *)
ValueIs(nums, b, o) ==
  IF b = <<>> \/ (b[1].k = "s" /\ b[1].text = "") THEN o = <<>>
  ELSE /\ o # <<>>
       /\ IF b[1].k = "f" THEN \E p \in nums : p[1] = o[1] /\ p[2] = b[1].n ELSE o[1] = b[1].text
Texty(x) == IF x = <<"">> THEN <<>> ELSE x
PointIs(nums, b, o) == /\ o.id = b.id /\ o.x = Idx(b.x) /\ o.sf = b.sf /\ o.t = Texty(b.t) /\ ValueIs(nums, b.val, o.val)
ModelIs(nums, b, o) == /\ o.id = b.id /\ o.ns = Texty(b.ns) /\ o.x = Idx(b.x) /\ Len(o.pts) = Len(b.pts)
                       /\ \A i \in DOMAIN b.pts : PointIs(nums, b.pts[i], o.pts[i])
DeviceIs(nums, b, o) == /\ \A f \in DevFields \ {"t"} : o[f] = Texty(b[f])
                        /\ o.t = (IF b.t = <<>> THEN <<>> ELSE <<TimeText(b.t[1])>>)
                        /\ Len(o.models) = Len(b.models)
                        /\ \A i \in DOMAIN b.models : ModelIs(nums, b.models[i], o.models[i])
RecordIs(nums, b, o) == /\ o.v = Texty(b.v) /\ Len(o.devs) = Len(b.devs)
                        /\ \A i \in DOMAIN b.devs : DeviceIs(nums, b.devs[i], o.devs[i])

RECURSIVE SameTree(_, _)
SameTree(a, b) == /\ a.g = b.g /\ a.x = b.x /\ {a.a[i] : i \in DOMAIN a.a} = {b.a[i] : i \in DOMAIN b.a} /\ Len(a.k) = Len(b.k)
                  /\ \A i \in DOMAIN a.k : SameTree(a.k[i], b.k[i])

-----------------------------------------------------------------------------
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
NoDoc == Element("", <<>>, "", <<>>)
InitState(cfg) == [cfg |-> cfg, ints |-> Pairs(cfg.ints), nums |-> {}, built |-> <<>>, docs |-> <<>>]
IntsOf(s, e) == s.ints \cup Pairs(e.ints)
Norm(r) == [r EXCEPT !.devs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.models = [j \in DOMAIN @ |-> [@[j] EXCEPT !.x = Idx(@),
             !.pts = [l \in DOMAIN @ |-> [@[l] EXCEPT !.x = Idx(@)]]]]]]]

Clauses(s, e) ==
  CASE e.e = "doc" -> (IF ~e.same THEN {"sdx.changed"} ELSE {}) \cup (IF e.kind # "ok" THEN {"sdx.write"}
                       ELSE IF Unexpected(e.doc) \/ ~RecordIs(Pairs(e.nums), s.built[e.r], Meaning(IntsOf(s, e), e.doc)) THEN {"sdx.doc"}
                       ELSE IF \E i \in DOMAIN e.doc.k : \E j \in DOMAIN e.doc.k[i].k : LET m == e.doc.k[i].k[j] IN
                                 Has(m, "x") /\ IntAt(IntsOf(s, e), m, "x") = 1 THEN {"sdx.first"} ELSE {})
    [] e.e = "back" -> (IF e.kind # "ok" THEN {"sdx.read"} ELSE IF Norm(e.rec) # Meaning(s.ints, s.docs[e.r]) THEN {"sdx.back"} ELSE {})
    [] e.e = "again" -> (IF ~e.same THEN {"sdx.changed"} ELSE {}) \cup (IF e.kind # "ok" THEN {"sdx.write"} ELSE IF ~SameTree(e.doc, s.docs[e.r]) THEN {"sdx.again"} ELSE {})
    [] e.e = "parse" -> LET d == s.cfg.docs[e.n] IN
         IF Unexpected(d) THEN (IF e.kind = "ok" THEN {"sdx.accepted"} ELSE IF e.kind # "sdxerr" THEN {"sdx.untyped"} ELSE {})
         ELSE IF e.kind # "ok" THEN {"sdx.read"}
         ELSE IF Norm(e.rec) # Meaning(s.ints, d) THEN {"sdx.back"} ELSE {}
    [] OTHER -> {}
Step(s, e) ==
  CASE e.e = "built" -> [s EXCEPT !.built = Append(@, e.rec), !.docs = Append(@, NoDoc)]
    [] e.e = "doc" -> [s EXCEPT !.docs[e.r] = e.doc, !.ints = IntsOf(s, e)]
    [] OTHER -> s
=============================================================================
