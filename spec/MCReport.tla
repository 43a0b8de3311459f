------------------------------- MODULE MCReport -------------------------------
(***************************************************************************)
(* A report writer, line by line, over every small device image: two        *)
(* definitions (scaled point, bitfield, text; repeating block) and a model  *)
(* without.  Mut plants a design error.                                     *)
(***************************************************************************)
EXTENDS Report
CONSTANTS Mut

NoSf == [k |-> "none", v |-> 0, n |-> ""]
Pn(id, idc, off, t, len, sf, lab, un) == [id |-> id, idc |-> idc, off |-> off, t |-> t, len |-> len, sf |-> sf, lab |-> lab, un |-> un]
D2 == [id |-> 2, len |-> 4, name |-> "two", lab |-> <<84, 119, 111>>, fl |-> 4, rep |-> TRUE, rl |-> 1, rn |-> "r",
       fp |-> <<Pn("A", <<65>>, 0, "int16", 1, [k |-> "pt", v |-> 0, n |-> "S"], <<65, 109>>, <<86>>),
                Pn("S", <<83>>, 1, "sunssf", 1, NoSf, <<>>, <<>>),
                Pn("F", <<70>>, 2, "bitfield16", 1, NoSf, <<>>, <<>>),
                Pn("T", <<84>>, 3, "string", 1, NoSf, <<>>, <<>>)>>,
       rp |-> <<Pn("B", <<66>>, 0, "uint16", 1, NoSf, <<>>, <<37>>)>>]
Chains == {<<>>, <<2>>, <<7, 2>>, <<2, 2>>}
Body(i) == IF i = 7 THEN {<<9>>}
           ELSE {<<a, sf, f, t>> \o r : a \in {0, 12, 65534, 32768}, sf \in {1, 32768}, f \in {0, 10, 65535}, t \in {0, 16706}, r \in {<<5>>, <<65535, 0>>}}
Bodies(c) == IF c = <<>> THEN {<<>>}
             ELSE IF Len(c) = 1 THEN {<<b>> : b \in Body(c[1])}
             ELSE IF c[1] = 7 THEN {<<<<9>>, b>> : b \in Body(2)}
             ELSE {<<<<12, 1, 10, 16706, 5>>, b>> : b \in {<<0, 1, 10, 0, 7>>, <<1, 0, 65535, 16640, 0, 3>>}}
Words(c, bs) == SunS \o FoldLeft(LAMBDA acc, i : acc \o <<c[i], Len(bs[i])>> \o bs[i], <<>>, [i \in DOMAIN c |-> i])
Images == UNION {{<<c, bs>> : bs \in Bodies(c)} : c \in Chains}
Ends == {"ok", "noend", "nomark", "silent", "odd"}
Cfg(img, end) == [via |-> "tcp", defs |-> <<D2>>, maxread |-> 125,
                  segs |-> <<[a |-> 40000, w |-> LET w == Words(img[1], img[2]) IN
                     IF end = "noend" THEN w ELSE IF end = "nomark" THEN [w \o <<65535>> EXCEPT ![2] = 1] ELSE w \o <<65535>>]>>]

VARIABLES s, end, pc, todo, out, bad
vars == <<s, end, pc, todo, out, bad>>
Init == /\ \E img \in Images : end \in (IF Len(img[1]) = 1 /\ img[2][1][1] # 12 THEN {"ok"} ELSE Ends) /\ s = InitState(Cfg(img, end))
        /\ pc = "scan" /\ todo = <<>> /\ out = <<>> /\ bad = {}
Scan == /\ pc = "scan"
        /\ IF end \in {"noend", "nomark", "silent", "odd"} THEN pc' = "failed" /\ todo' = <<>>
           ELSE pc' = "print" /\ todo' = LET ms == ChainOf(s).models IN IF Mut = "reverse" THEN Reverse(ms) ELSE ms
        /\ UNCHANGED <<s, end, out, bad>>
NumChars(v) == (IF v.s = 1 THEN <<45>> ELSE <<>>) \o (IF v.d = <<>> THEN <<48>> ELSE [i \in DOMAIN v.d |-> 48 + v.d[i]] \o [i \in 1..v.e |-> 48])
HexChars(b) == <<48, 120>> \o [i \in 1..4 |-> LET x == HexCodes(b)[i] IN IF x >= 65 THEN x + 32 ELSE x]
Piece(m, b, j, p) ==
  LET raw == BytesOf(s.mem, p.addr, p.len)
      v == Decode(p.t, raw)
      k == IF Mut = "unscaled" THEN 0 ELSE Factor(s, m, p)
      w == IF v.t = "i" THEN Num(v.s, v.d, v.e + k) ELSE v
      defp == CHOOSE q \in ToSet(D2.fp \o D2.rp) : q.id = p.id
      hex == p.t = "bitfield16" /\ Mut # "decimal"
      chars == IF v.t = "n" THEN <<78, 111, 110, 101>> ELSE IF v.t = "s" THEN v.c ELSE IF hex THEN HexChars(raw) ELSE NumChars(w)
      front == (IF j = 1 THEN <<>> ELSE <<48, 48 + (IF Mut = "index" THEN j ELSE j - 1)>>) \o (IF Mut = "nolabel" THEN <<>> ELSE Plain(defp.lab)) \o defp.idc IN
  IF Mut = "all" THEN [show |-> TRUE, l |-> [n |-> front \o chars \o defp.un, toks |-> <<>>]]
  ELSE [show |-> v.t # "n" /\ ~(Mut = "zero" /\ v.t = "i" /\ v.d = <<>>),
        l |-> [n |-> front \o Plain(chars) \o (IF Mut = "nounits" THEN <<>> ELSE defp.un),
               toks |-> IF v.t # "i" THEN <<>> ELSE <<[n |-> chars, dec |-> IF hex THEN NoVal ELSE w, hex |-> IF hex THEN w ELSE NoVal]>>]]
PrintModel ==
         /\ pc = "print" /\ todo # <<>>
         /\ LET m == ModelOf(s, todo[1])
                head == <<[n |-> ModelWord \o (IF m.def = 0 THEN <<>> ELSE D2.lab) \o DigitCodes(m.id), toks |-> <<>>]>>
                blk(j) == LET ps == [k \in DOMAIN m.blocks[j].pts |-> Piece(m, m.blocks[j], j, m.blocks[j].pts[k])] IN
                          SelectSeq(ps, LAMBDA x : x.show)
                ls == FoldLeft(LAMBDA acc, j : acc \o [i \in DOMAIN blk(j) |-> blk(j)[i].l], <<>>,
                               [j \in (IF Mut = "fixedonly" /\ m.blocks # <<>> THEN 1..1 ELSE DOMAIN m.blocks) |-> j]) IN
            IF m.def = 0 /\ Mut = "unknown" THEN todo' = <<>> /\ out' = out
            ELSE /\ todo' = Tail(todo)
                 /\ out' = out \o head \o (IF Mut = "twice" THEN ls \o ls ELSE ls)
         /\ UNCHANGED <<s, end, pc, bad>>
Event(status, lines) ==
  [e |-> "report", want |-> [tp |-> IF end = "odd" THEN "x" ELSE "tcp", unit |-> 3, host |-> "h", port |-> 1502, to |-> "1.0", dev |-> "", baud |-> 0],
   reach |-> end # "silent", opened |-> IF end = "odd" THEN <<>> ELSE <<[host |-> "h", port |-> IF Mut = "port" THEN 502 ELSE 1502]>>,
   units |-> IF end = "odd" THEN <<>> ELSE <<IF Mut = "unit" THEN 1 ELSE 3>>, times |-> IF end = "odd" THEN <<>> ELSE <<"1.0">>,
   status |-> status, trouble |-> "", lines |-> lines]
Done == /\ \/ pc = "print" /\ todo = <<>> /\ bad' = ReportClauses(s, Event(0, out))
           \/ pc = "failed" /\ bad' = ReportClauses(s, Event(IF Mut = "status" THEN 0 ELSE 1,
                                         IF Mut = "silent" THEN <<>> ELSE <<[n |-> <<69, 114, 114, 111, 114>>, toks |-> <<>>]>>))
        /\ pc' = "end" /\ UNCHANGED <<s, end, todo, out>>
Next == Scan \/ PrintModel \/ Done
Spec == Init /\ [][Next]_vars
NoViolation == bad = {}
=============================================================================
