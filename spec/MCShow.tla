-------------------------------- MODULE MCShow --------------------------------
(***************************************************************************)
(* A printer of devices, line by line, over every small device image: not   *)
(* read, read, or read and assigned to.  Mut plants a design error.         *)
(***************************************************************************)
EXTENDS SunSpec
CONSTANTS Mut

NoSf == [k |-> "none", v |-> 0, n |-> ""]
Pn(id, idc, off, t, sf) == [id |-> id, idc |-> idc, off |-> off, t |-> t, len |-> 1, sf |-> sf]
Def(id, name, nc, rep) ==
  [id |-> id, len |-> 3, name |-> name, nc |-> nc, fl |-> 3, rep |-> rep, rl |-> IF rep THEN 1 ELSE 0, rn |-> "row", rnc |-> <<114, 111, 119>>,
   fp |-> <<Pn("A", <<65>>, 0, "int16", [k |-> "pt", v |-> 0, n |-> "S"]), Pn("S", <<83>>, 1, "sunssf", NoSf), Pn("T", <<84>>, 2, "string", NoSf)>>,
   rp |-> IF rep THEN <<Pn("B", <<66>>, 0, "uint16", NoSf)>> ELSE <<>>]
Defs == <<Def(2, "two", <<116, 119, 111>>, TRUE), Def(3, "two", <<116, 119, 111>>, FALSE)>>
Chains == {<<>>, <<2>>, <<7, 3>>, <<2, 7, 2>>, <<2, 3>>, <<7, 7>>}
Body(i) == IF i = 7 THEN {<<9>>}
           ELSE {<<a, sf, t>> \o r : a \in {0, 12, 65534, 32768}, sf \in {1, 32768}, t \in {0, 16706, 8257},
                                     r \in IF i = 2 THEN {<<>>, <<5>>, <<65535, 0>>} ELSE {<<>>}}
RECURSIVE Bodies(_)
Bodies(c) == IF c = <<>> THEN {<<>>}
             ELSE {<<b>> \o r : b \in (IF Len(c) = 1 THEN Body(c[1]) ELSE IF c[1] = 7 THEN {<<9>>} ELSE {<<12, 1, 0, 5>>, <<0, 1, 16706>>} \cap Body(c[1])),
                                r \in Bodies(Tail(c))}
Words(c, bs) == SunS \o FoldLeft(LAMBDA acc, i : acc \o <<c[i], Len(bs[i])>> \o bs[i], <<>>, [i \in DOMAIN c |-> i]) \o <<65535>>
Cfg(c, bs) == [via |-> "mapped", defs |-> Defs, maxread |-> 125, segs |-> <<[a |-> 40000, w |-> Words(c, bs)]>>]
Scanned(c, bs) ==
  LET s0 == InitState(Cfg(c, bs))
      ms == ExpectedModels(s0, Chain(s0.mem, 40000)) IN
  [s0 EXCEPT !.models = ms, !.vals = BlankVals(ms), !.sfv = BlankSfs(ms), !.scanned = TRUE, !.in = TRUE]
Read(s) == [s EXCEPT !.vals = [m \in DOMAIN s.vals |-> Freshly(s, m)]]
Seven == [NoVal EXCEPT !.t = "i", !.d = <<7>>]
Set(s) == [s EXCEPT !.vals[1][1][1] = [@ EXCEPT !.b = Seven, !.pend = "yes"]]

VARIABLES s, todo, out, pc, bad
vars == <<s, todo, out, pc, bad>>
Calls(x) == {[op |-> "show", how |-> "device", m |-> 0, b |-> 0]}
            \cup {[op |-> "show", how |-> "one", m |-> i, b |-> j] : i \in DOMAIN x.models, j \in 1..3}
Fits(x, c) == IF c.how = "device" \/ c.b = 1 THEN TRUE ELSE c.b \in DOMAIN x.models[c.m].blocks
Todo(x, c) ==
  IF c.how = "one" THEN <<<<c.m, c.b>>>>
  ELSE LET order == IF Mut = "unsorted" THEN [i \in DOMAIN x.models |-> i]
                    ELSE FoldLeft(LAMBDA acc, n : acc \o (IF Mut = "first" THEN <<Named(x, n)[1]>> ELSE Named(x, n)), <<>>, Names(x)) IN
       [i \in DOMAIN order |-> <<order[i], 1>>]
Init == /\ \E c \in Chains : \E bs \in Bodies(c) :
             LET a == Scanned(c, bs) IN
             \E x \in {a, Read(a)} \cup (IF c # <<>> /\ c[1] # 7 THEN {Set(Read(a))} ELSE {}) :
               \E k \in {c2 \in Calls(x) : Fits(x, c2)} : s = [x EXCEPT !.call = k] /\ todo = Todo(x, k)
        /\ out = <<>> /\ pc = "print" /\ bad = {}
NumChars(v) == (IF v.s = 1 THEN <<45>> ELSE <<>>) \o (IF v.d = <<>> THEN <<48>> ELSE [i \in DOMAIN v.d |-> 48 + v.d[i]] \o [i \in 1..v.e |-> 48])
Piece(i, j, k) ==
  LET x == s.vals[i][j][k]
      p == s.models[i].blocks[j].pts[k]
      now == Decode(p.t, BytesOf(s.mem, p.addr, p.len))
      v == IF Mut = "device" THEN now ELSE x.b
      w == IF v.t = "i" THEN Num(v.s, v.d, v.e + (IF Mut = "unscaled" THEN 0 ELSE x.k)) ELSE v
      chars == IF v.t = "n" THEN <<78>> ELSE IF v.t = "s" THEN v.c ELSE NumChars(w)
      id == (CHOOSE q \in ToSet(Defs[1].fp \o Defs[1].rp) : q.id = p.id).idc IN
  IF (v.t = "n" /\ Mut # "all") \/ (Mut = "falsy" /\ v.t = "i" /\ v.d = <<>>) THEN <<>>
  ELSE <<[raw |-> id \o <<58, 32, 32>> \o (IF Mut = "trim" /\ v.t = "s" THEN Plain(chars) ELSE chars), n |-> id \o Plain(chars), toks |-> IF v.t # "i" THEN <<>> ELSE <<[n |-> chars, dec |-> w, hex |-> NoVal]>>]>>
Pieces(i, j) == FoldLeft(LAMBDA acc, k : acc \o Piece(i, j, k), <<>>, [k \in DOMAIN s.vals[i][j] |-> k])
HeadLine(n) == <<[raw |-> n, n |-> n, toks |-> <<>>]>>
RepHead(j) == HeadLine(<<114, 111, 119, 91>> \o DigitCodes(IF Mut = "index" THEN j ELSE j - 1) \o <<93>>)
Lines(i, j) ==
  LET m == s.models[i] IN
  IF j > 1 THEN RepHead(j) \o Pieces(i, j)
  ELSE HeadLine((IF m.def = 0 THEN <<109, 111, 100, 101, 108, 95, 55>> ELSE <<116, 119, 111>>) \o DigitCodes(m.id))
       \o (IF m.def = 0 THEN <<>>
           ELSE Pieces(i, 1)
                \o FoldLeft(LAMBDA acc, b : acc \o RepHead(b) \o Pieces(i, b), <<>>,
                            IF Mut = "fixedonly" THEN <<>> ELSE [b \in 1..Len(m.blocks) - 1 |-> b + 1]))
Write == /\ pc = "print" /\ todo # <<>>
         /\ out' = out \o Lines(todo[1][1], todo[1][2]) /\ todo' = Tail(todo)
         /\ UNCHANGED <<s, pc, bad>>
ValsSeen == [i \in DOMAIN s.vals |-> [j \in DOMAIN s.vals[i] |-> [k \in DOMAIN s.vals[i][j] |->
              LET x == s.vals[i][j][k] IN [b |-> x.b, v |-> IF x.b.t = "i" THEN Num(x.b.s, x.b.d, x.b.e + x.k) ELSE x.b]]]]
Done == /\ pc = "print" /\ todo = <<>>
        /\ pc' = "end" /\ bad' = ShowRet(s, [kind |-> "ok", lines |-> out, val |-> ValsSeen])
        /\ UNCHANGED <<s, todo, out>>
Next == Write \/ Done
Spec == Init /\ [][Next]_vars
NoViolation == bad = {}
=============================================================================
