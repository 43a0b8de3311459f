------------------------------- MODULE MCPoints -------------------------------
(***************************************************************************)
(* Reading, assigning and writing the points of a model, as the client does *)
(* it: reading in requests cut at point borders and taking the values over  *)
(* at the end, writing runs of adjacent assigned points and clearing them    *)
(* when acknowledged.  Requests may fail before or after they took effect    *)
(* and the device may change between any two.  A request carries at most     *)
(* four registers here.  Mut plants a design error.                          *)
(***************************************************************************)
EXTENDS SunSpec, Json
CONSTANTS Calls, Faults, Changes, Mut, Record

MaxRead == 4
NoSf == [k |-> "none", v |-> 0, n |-> ""]
BySf == [k |-> "pt", v |-> 0, n |-> "S"]
Pnt(id, off, t, len, sf) == [id |-> id, off |-> off, t |-> t, len |-> len, sf |-> sf]
Defs == << [id |-> 1, len |-> 11, name |-> "m", fl |-> 8, rep |-> TRUE, rl |-> 3, rn |-> "repeating",
            fp |-> <<Pnt("S", 0, "sunssf", 1, NoSf), Pnt("A", 1, "int16", 1, BySf),
                     Pnt("D", 2, "uint16", 1, [NoSf EXCEPT !.k = "const", !.v = 1]),
                     Pnt("B", 3, "uint32", 2, NoSf), Pnt("C", 5, "uint32", 2, NoSf)>>,
            rp |-> <<Pnt("E", 0, "uint16", 1, BySf), Pnt("F", 1, "uint32", 2, NoSf)>>] >>
Base == 40000
Cfg == [via |-> "rtu", defs |-> Defs, maxread |-> MaxRead,
        segs |-> <<[a |-> Base, w |-> <<21365, 28243, 1, 11, 1, 3, 5, 0, 7, 0, 9, 0, 6, 0, 8, 65535>>]>>]
M0 == ModelOf(InitState(Cfg), [id |-> 1, addr |-> Base + 4, len |-> 11])
S0 == [InitState(Cfg) EXCEPT !.base = Base, !.models = <<M0>>, !.vals = BlankVals(<<M0>>), !.sfv = BlankSfs(<<M0>>), !.scanned = TRUE]
A0 == Base + 4

(* what the device may change by itself                                     *)
Moves == {[a |-> A0, w |-> <<2>>], [a |-> A0, w |-> <<32768>>], [a |-> A0 + 3, w |-> <<1, 1>>], [a |-> A0 + 5, w |-> <<65535, 65535>>],
          [a |-> A0 + 9, w |-> <<3, 3>>]}
Small(n) == Num(0, SmallDigits(n), 0)
Sets == {[b |-> 1, p |-> 1, n |-> 4], [b |-> 1, p |-> 2, n |-> 12], [b |-> 1, p |-> 3, n |-> 70000], [b |-> 1, p |-> 4, n |-> 80000],
         [b |-> 2, p |-> 1, n |-> 3], [b |-> 2, p |-> 2, n |-> 90000]}

VARIABLES s, bad, im, c, calls, faults, changes, script, now
vars == <<s, bad, im, c, calls, faults, changes, script, now>>
View == <<s, bad, im, c, calls, faults, changes>>
Idle == [pc |-> "idle", op |-> "", todo |-> <<>>, data |-> << >>, pts |-> <<>>]
Blank == [j \in DOMAIN M0.blocks |-> [k \in DOMAIN M0.blocks[j].pts |-> [b |-> NoVal, k |-> 0, dirty |-> FALSE]]]
Init == /\ s = S0 /\ bad = {} /\ im = Blank /\ c = Idle /\ calls = 0 /\ faults = Faults /\ changes = Changes
        /\ script = <<>> /\ now = <<>>
Emit(e) == /\ bad' = Clauses(s, e) /\ s' = Step(s, e)

-----------------------------------------------------------------------------
(* requests of a read: cut where the next point would not fit any more      *)
AllPts == LET b1 == M0.blocks[1] b2 == M0.blocks[2] IN
          [i \in 1..5 |-> IF i = 1 THEN [addr |-> A0, len |-> 1] ELSE [addr |-> b1.pts[i - 1].addr, len |-> b1.pts[i - 1].len]]
          \o [i \in 1..2 |-> [addr |-> b2.pts[i].addr, len |-> b2.pts[i].len]]
Cuts == FoldLeft(LAMBDA acc, p : IF p.addr + p.len - acc[Len(acc)] > MaxRead THEN Append(acc, p.addr) ELSE acc, <<A0>>, AllPts)
RECURSIVE Chunks(_, _)
Chunks(a, n) == IF n <= 0 THEN <<>> ELSE IF n <= MaxRead THEN <<[a |-> a, n |-> n]>> ELSE <<[a |-> a, n |-> MaxRead]>> \o Chunks(a + MaxRead, n - MaxRead)
ReadReqs == IF Mut = "tear" THEN Chunks(A0, 11)
            ELSE IF Mut = "long" THEN <<[a |-> A0, n |-> 11]>>
            ELSE FlattenSeq([i \in DOMAIN Cuts |->
                   Chunks(Cuts[i], (IF i < Len(Cuts) THEN Cuts[i + 1] ELSE A0 + 11) - Cuts[i])])

(* taking values over from what was fetched (data: address -> byte pair)     *)
Bytes(d, a, n) == [i \in 1..2 * n |-> d[a + (i - 1) \div 2][2 - (i % 2)]]
Has(d, a, n) == \A i \in 0..n - 1 : a + i \in DOMAIN d
Taken(d, old) ==
  LET sf == IF Has(d, A0, 1) THEN Decode("sunssf", Bytes(d, A0, 1)) ELSE NoVal
      k == IF sf.t = "n" THEN 0 ELSE SmallInt(sf) IN
  [j \in DOMAIN old |-> [q \in DOMAIN old[j] |->
     LET p == M0.blocks[j].pts[q] IN
     IF ~Has(d, p.addr, p.len) THEN old[j][q]
     ELSE [b |-> IF Mut = "lazy" /\ Decode(p.t, Bytes(d, p.addr, p.len)).t = "n" THEN old[j][q].b ELSE Decode(p.t, Bytes(d, p.addr, p.len)),
           k |-> IF p.sf.k = "none" THEN 0 ELSE IF p.sf.k = "const" THEN 1
                 ELSE IF Mut = "stalesf" /\ old[j][q].k # 0 THEN old[j][q].k ELSE k,
           dirty |-> Mut = "resend" /\ old[j][q].dirty]]]

(* runs of adjacent assigned points of a block: [a, pts]                     *)
Runs(j) ==
  FoldLeft(LAMBDA acc, q :
    LET p == M0.blocks[j].pts[q] IN
    IF ~im[j][q].dirty THEN acc
    ELSE IF acc # <<>> /\ (acc[Len(acc)].next = p.addr \/ Mut = "merge")
         THEN [acc EXCEPT ![Len(acc)] = [@ EXCEPT !.next = p.addr + p.len, !.pts = Append(@, <<j, q>>)]]
         ELSE Append(acc, [a |-> p.addr, next |-> p.addr + p.len, pts |-> <<<<j, q>>>>]),
    <<>>, [q \in DOMAIN im[j] |-> q])
Enc(x) == Encode(M0.blocks[x[1]].pts[x[2]].t, 2 * M0.blocks[x[1]].pts[x[2]].len, im[x[1]][x[2]].b)
WriteReqs == IF Mut = "fixedonly" THEN Runs(1) ELSE Runs(1) \o Runs(2)
DataOf(r) == FlattenSeq([i \in DOMAIN r.pts |-> Enc(r.pts[i]).b])

Shown(x) == IF x.b.t # "i" \/ x.k = 0 THEN x.b ELSE Num(x.b.s, x.b.d, x.b.e + x.k)
Val(v) == <<[j \in DOMAIN v |-> [q \in DOMAIN v[j] |-> [b |-> v[j][q].b, v |-> Shown(v[j][q])]]]>>
Ret(kind, v) == [e |-> "ret", kind |-> kind, open |-> 0, val |-> Val(v), dump |-> <<>>]

-----------------------------------------------------------------------------
Start(e) == /\ c.pc = "idle" /\ calls < Calls /\ calls' = calls + 1 /\ Emit(e) /\ now' = <<>> /\ script' = Append(script, e)
CallRead == /\ Start([e |-> "call", op |-> "read", ms |-> <<1>>, fresh |-> FALSE])
            /\ c' = [Idle EXCEPT !.pc = "req", !.op = "read", !.todo = ReadReqs]
            /\ UNCHANGED <<im, faults, changes>>
CallSet == \E x \in Sets :
             LET o == im[x.b][x.p]
                 scale == IF M0.blocks[x.b].pts[x.p].sf.k = "none" THEN 0 ELSE o.k
                 v == [Small(x.n) EXCEPT !.e = @ + scale] IN
             /\ o.b.t # "n" \/ scale # 0 \/ M0.blocks[x.b].pts[x.p].sf.k = "none"
             /\ o.b # Small(x.n)
             /\ Start([e |-> "call", op |-> "set", m |-> 1, b |-> x.b, p |-> x.p, fresh |-> FALSE, v |-> v])
             /\ c' = [Idle EXCEPT !.pc = "ret", !.op = "set"]
             /\ im' = [im EXCEPT ![x.b][x.p] = [@ EXCEPT !.b = Small(x.n), !.dirty = (Mut # "clean")]]
             /\ UNCHANGED <<faults, changes>>
CallWrite == /\ Start([e |-> "call", op |-> "write", ms |-> <<1>>, fresh |-> FALSE])
             /\ \A j \in DOMAIN im : \A q \in DOMAIN im[j] : im[j][q].dirty => Enc(<<j, q>>).ok
             /\ c' = [Idle EXCEPT !.pc = "req", !.op = "write", !.todo = WriteReqs]
             /\ im' = IF Mut = "early" THEN [j \in DOMAIN im |-> [q \in DOMAIN im[j] |-> [im[j][q] EXCEPT !.dirty = FALSE]]] ELSE im
             /\ UNCHANGED <<faults, changes>>

Outcome(o) == /\ (o # "ok" => faults > 0) /\ faults' = (IF o = "ok" THEN faults ELSE faults - 1) /\ now' = Append(now, o)
ReqRead == /\ c.pc = "req" /\ c.op = "read"
           /\ IF c.todo = <<>>
              THEN /\ im' = IF Mut = "half" THEN im ELSE Taken(c.data, im)
                   /\ c' = [c EXCEPT !.pc = "ret"] /\ UNCHANGED <<s, bad, faults, now>>
              ELSE \E o \in {"ok", "lost"} :
                     LET r == c.todo[1]
                         b == BytesOf(s.mem, r.a, r.n)
                         got == [x \in r.a..(r.a + r.n - 1) |-> <<b[2 * (x - r.a) + 1], b[2 * (x - r.a) + 2]>>] @@ c.data IN
                     /\ Outcome(o)
                     /\ Emit([e |-> "req", fc |-> 3, addr |-> r.a, cnt |-> r.n, d |-> IF o = "ok" THEN b ELSE <<>>, ok |-> o = "ok", ap |-> FALSE])
                     /\ im' = IF Mut = "half" /\ o = "ok" THEN Taken(got, im) ELSE im
                     /\ c' = IF o = "ok" THEN [c EXCEPT !.todo = Tail(@), !.data = got]
                             ELSE [c EXCEPT !.pc = IF Mut = "swallow" THEN "ret" ELSE "fail"]
           /\ UNCHANGED <<calls, changes, script>>
Clear(pts) == [j \in DOMAIN im |-> [q \in DOMAIN im[j] |-> IF <<j, q>> \in ToSet(pts) /\ Mut # "never"
                                                           THEN [im[j][q] EXCEPT !.dirty = FALSE] ELSE im[j][q]]]
ReqWrite == /\ c.pc = "req" /\ c.op = "write"
            /\ IF c.todo = <<>>
               THEN c' = [c EXCEPT !.pc = "ret"] /\ UNCHANGED <<s, bad, im, faults, now>>
               ELSE \E o \in {"ok", "lost", "unacked"} :
                      LET r == c.todo[1]
                          d == DataOf(r) IN
                      /\ Outcome(o)
                      /\ Emit([e |-> "req", fc |-> 16, addr |-> r.a, cnt |-> Len(d) \div 2, d |-> d, ok |-> o = "ok", ap |-> o # "lost"])
                      /\ im' = IF o = "ok" THEN Clear(r.pts)
                               ELSE IF Mut = "drop" THEN [j \in DOMAIN im |-> [q \in DOMAIN im[j] |-> [im[j][q] EXCEPT !.dirty = FALSE]]]
                               ELSE im
                      /\ c' = IF o = "ok" THEN [c EXCEPT !.todo = Tail(@)] ELSE [c EXCEPT !.pc = IF Mut = "swallow" THEN "ret" ELSE "fail"]
            /\ UNCHANGED <<calls, changes, script>>
End == /\ c.pc \in {"ret", "fail"}
       /\ Emit(Ret(IF c.pc = "ret" THEN "ok" ELSE "sserr", im))
       /\ c' = Idle /\ script' = [script EXCEPT ![Len(script)] = [how |-> now] @@ @]
       /\ UNCHANGED <<im, calls, faults, changes, now>>
Change == /\ changes > 0 /\ c.pc \in {"idle", "req"} /\ changes' = changes - 1
          /\ \E x \in Moves : /\ Emit([e |-> "chg", a |-> x.a, w |-> x.w])
                              /\ now' = Append(now, "chg " \o ToString(x.a - A0) \o " " \o ToString(x.w[1]) \o
                                                    (IF Len(x.w) > 1 THEN " " \o ToString(x.w[2]) ELSE ""))
          /\ c.pc = "req"
          /\ UNCHANGED <<im, c, calls, faults, script>>

Next == bad = {} /\ (CallRead \/ CallSet \/ CallWrite \/ ReqRead \/ ReqWrite \/ End \/ Change)
Spec == Init /\ [][Next]_vars
NoViolation == bad = {}
(* what is assigned and not written stays pending                           *)
Pending == (bad = {} /\ c.pc = "idle") =>
  \A j \in DOMAIN im : \A q \in DOMAIN im[j] :
    LET x == s.vals[1][j][q].pend IN (x = "yes" => im[j][q].dirty) /\ (x = "no" => ~im[j][q].dirty)
PrintScripts == (Record /\ c.pc = "idle" /\ calls = Calls) => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
