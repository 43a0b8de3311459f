-------------------------------- MODULE Report --------------------------------
(***************************************************************************)
(* The report of a device that the command line tool prints.                *)
(*                                                                          *)
(* cfg is that of SunSpec, with texts as code points: a definition has its  *)
(* label (lab), its points their label (lab) and units (un).  The one event *)
(* is                                                                       *)
(*   report  want: what the options say [tp, unit, host, port, to, dev,     *)
(*           baud]; reach: whether the device answers at all; opened: the   *)
(*           connections that were made; units: the units asked; times:     *)
(*           the timeouts in force for requests; status;                    *)
(*           trouble: text of an uncaught exception; lines                  *)
(* A line is [n, toks]: the characters of the line without blanks, colons   *)
(* and parentheses, and for each blank-separated piece of it that reads as  *)
(* a number [n, dec, hex], dec and hex being values, or NoVal.              *)
(***************************************************************************)
EXTENDS SunSpec

(* repeating blocks have a number, of two digits at least                   *)
Number(i) == IF i = 0 THEN {<<>>} ELSE {DigitCodes(i), <<48>> \o DigitCodes(i)}
ModelWord == <<109, 111, 100, 101, 108>>
Bitfields == {"bitfield16", "bitfield32"}

(* the device as its registers say                                          *)
BaseOf(s) == LET is == {i \in DOMAIN Default : Marked(s.mem, Default[i])} IN
             IF is = {} THEN -1 ELSE Default[CHOOSE i \in is : \A j \in is : i <= j]
ChainOf(s) == IF BaseOf(s) = -1 THEN [ok |-> FALSE, end |-> 0, models |-> <<>>] ELSE Chain(s.mem, BaseOf(s))
Factor(s, m, p) ==
  IF p.sf.k = "const" THEN p.sf.v
  ELSE IF p.sf.k = "pt"
  THEN LET b == m.blocks[p.sf.blk + 1]
           j == CHOOSE j \in DOMAIN b.sfs : b.sfs[j].id = p.sf.id
           v == Decode("sunssf", BytesOf(s.mem, b.sfs[j].addr, 1)) IN IF v.t = "n" THEN 0 ELSE SmallInt(v)
  ELSE 0
(* what is to be printed: a sequence of [model, ...] and [point, ...]       *)
PointLines(s, m, def, j) ==
  LET b == m.blocks[j]
      src == RealPoints(IF j = 1 THEN def.fp ELSE def.rp)
      all == [k \in DOMAIN b.pts |->
               [kind |-> "point", idx |-> j - 1, t |-> b.pts[k].t, lab |-> src[k].lab, id |-> src[k].idc, un |-> src[k].un,
                b |-> Decode(b.pts[k].t, BytesOf(s.mem, b.pts[k].addr, b.pts[k].len)), k |-> Factor(s, m, b.pts[k])]] IN
  SelectSeq(all, LAMBDA x : x.b.t # "n")
ModelLines(s, x) ==
  LET m == ModelOf(s, x)
      def == IF m.def = 0 THEN [lab |-> <<>>] ELSE s.cfg.defs[m.def] IN
  <<[kind |-> "model", lab |-> def.lab, id |-> m.id]>>
  \o (IF ~m.ok THEN <<>> ELSE FoldLeft(LAMBDA acc, j : acc \o PointLines(s, m, def, j), <<>>, [j \in DOMAIN m.blocks |-> j]))
Printed(s) == FoldLeft(LAMBDA acc, x : acc \o ModelLines(s, x), <<>>, ChainOf(s).models)

(* a line against what it should say                                        *)
Says(x, l) ==
  IF x.kind = "model" THEN l.n = ModelWord \o Plain(x.lab) \o DigitCodes(x.id)
  ELSE \E i \in Number(x.idx) :
    LET front == i \o Plain(x.lab) \o Plain(x.id)
        back == Plain(x.un)
        holds(v) == l.n = front \o v \o back IN
    IF x.b.t = "s" THEN holds(Plain(x.b.c))
    ELSE IF x.b.t = "?" THEN TRUE
    ELSE \E q \in DOMAIN l.toks : holds(l.toks[q].n) /\
           (IF x.t \in Bitfields THEN l.toks[q].hex.t = "i" /\ SameScaled(x.b, x.k, l.toks[q].hex)
            ELSE l.toks[q].dec.t # "n" /\ SameScaled(x.b, x.k, l.toks[q].dec))
(* "error", "Error", "unknown" or "Unknown" begin the line                  *)
Begins(c, w) == Len(c) >= Len(w) /\ SubSeq(c, 2, Len(w)) = Tail(w) /\ c[1] \in {w[1], w[1] - 32}
IsMessage(l) == Begins(l.n, <<101, 114, 114, 111, 114>>) \/ Begins(l.n, <<117, 110, 107, 110, 111, 119, 110>>)
Kinds(lines) == {i \in DOMAIN lines : Len(lines[i].n) >= 5 /\ SubSeq(lines[i].n, 1, 5) = ModelWord}

MustFail(s, e) == ~e.reach \/ ~ChainOf(s).ok
TargetWrong(e) ==
  \/ e.units \ {e.want.unit} # {} \/ e.times \ {e.want.to} # {}
  \/ \E i \in DOMAIN e.opened : e.opened[i] # (IF e.want.tp = "tcp" THEN [host |-> e.want.host, port |-> e.want.port]
                                              ELSE [host |-> e.want.dev, port |-> e.want.baud])
ReportClauses(s, e0) ==
  LET e == [e0 EXCEPT !.units = ToSet(@), !.times = ToSet(@)] IN
  IF e.trouble = "hang" THEN {"report.hang"}
  ELSE IF e.want.tp \in {"tcp", "rtu"} /\ TargetWrong(e) THEN {"report.target"}
  ELSE IF MustFail(s, e) \/ e.want.tp \notin {"tcp", "rtu", "mapped"}
  THEN (IF e.trouble # "" THEN {"report.trouble"} ELSE {})
       \cup (IF e.status # 1 THEN {"report.status"} ELSE {})
       \cup (IF ~(\E i \in DOMAIN e.lines : IsMessage(e.lines[i])) \/ Kinds(e.lines) # {} THEN {"report.message"} ELSE {})
  ELSE (IF e.trouble # "" THEN {"report.trouble"} ELSE {})
       \cup (IF e.trouble = "" /\ e.status # 0 THEN {"report.status"} ELSE {})
       \cup (IF e.trouble # "" \/ e.status # 0 THEN {}
             ELSE LET x == Printed(s)
                      k == Kinds(e.lines)
                      (* what is said before the first model is not part of the report proper *)
                      lines == IF k = {} THEN e.lines ELSE SubSeq(e.lines, CHOOSE i \in k : \A j \in k : i <= j, Len(e.lines)) IN
                  IF Len(lines) # Len(x) THEN {"report.lines"}
                  ELSE IF \E i \in DOMAIN x : ~Says(x[i], lines[i]) THEN {"report.line"} ELSE {})
ReportStep(s, e) == s
=============================================================================
