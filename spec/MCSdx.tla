-------------------------------- MODULE MCSdx ---------------------------------
(***************************************************************************)
(* A writer and a reader of SunSpec data records, element by element.  Mut  *)
(* plants a design error.                                                    *)
(***************************************************************************)
EXTENDS Sdx
CONSTANTS Mut

Ints == {<<"0", 0>>, <<"1", 1>>, <<"2", 2>>, <<"-1", -1>>}
Txt(x) == [k |-> "s", text |-> x, n |-> 0]
Pt(id, x, sf, t, val) == [id |-> id, x |-> x, sf |-> sf, t |-> t, val |-> val]
Pts == {Pt("A", x, sf, t, v) : x \in {<<>>, <<1>>, <<2>>}, sf \in {<<>>, <<0>>, <<-1>>}, t \in {<<>>, <<"T">>}, v \in {<<>>, <<Txt("7")>>}}
P0 == Pt("B", <<>>, <<>>, <<>>, <<Txt("0")>>)
Mod(id, ns, x, pts) == [id |-> id, ns |-> ns, x |-> x, pts |-> pts]
Mods == {<<>>} \cup {<<Mod("1", <<>>, <<>>, <<P0, p>>), Mod("2", ns, x, <<P0>>)>> : p \in Pts, ns \in {<<>>, <<"n">>}, x \in {<<>>, <<1>>, <<2>>}}
Bare == [f \in DevFields |-> <<>>]
(* every subset of the fields                                               *)
Devs == {[f \in DevFields |-> IF f \in F THEN (IF f = "t" THEN <<951782400>> ELSE <<f \o "1">>) ELSE <<>>] @@ [models |-> <<>>] : F \in SUBSET DevFields}
        \cup {Bare @@ [models |-> m] : m \in Mods}
Recs == {[v |-> v, devs |-> ds] : v \in {<<>>, <<"1">>}, ds \in {<<>>} \cup {<<d>> : d \in Devs}}
        \cup {[v |-> <<>>, devs |-> <<Bare @@ [models |-> <<Mod("1", <<>>, <<2>>, <<P0>>)>>], d>>] : d \in Devs}
Strange == {"none", "root", "device", "model", "point"}

VARIABLES rec, odd, pc, i, root, out, s, bad
vars == <<rec, odd, pc, i, root, out, s, bad>>
Init == /\ rec \in Recs /\ odd \in Strange /\ pc = "build" /\ i = 1 /\ root = NoDoc /\ out = [v |-> <<>>, devs |-> <<>>] /\ bad = {}
        /\ s = InitState([docs |-> <<>>, ints |-> <<>>])

Emit(e) == bad' = Clauses(s, e) /\ s' = Step(s, e)
AttrOf(n, x) == IF x = <<>> THEN <<>> ELSE <<<<n, x[1]>>>>
Num(x) == IF x = <<>> THEN <<>> ELSE <<ToString(x[1])>>
WPoint(p) == Element("p", <<<<"id", p.id>>>>
                          \o AttrOf("index", Num(IF Mut = "noindex" THEN <<>> ELSE p.x))
                          \o AttrOf("sf", Num(IF Mut = "falsy" /\ p.sf = <<0>> THEN <<>> ELSE p.sf)) \o AttrOf("t", p.t),
                     IF p.val = <<>> THEN (IF Mut = "none" THEN "None" ELSE "") ELSE IF Mut = "empty" /\ p.val[1].text = "0" THEN "" ELSE p.val[1].text, <<>>)
WModel(m) == Element("m", <<<<"id", m.id>>>> \o AttrOf("x", Num(IF (m.x = <<1>> /\ Mut # "first") \/ (Mut = "index2" /\ m.x = <<2>>) THEN <<>> ELSE m.x))
                          \o AttrOf("ns", m.ns), "", [j \in DOMAIN m.pts |-> WPoint(m.pts[IF Mut = "reverse" THEN Len(m.pts) + 1 - j ELSE j])])
WDevice(d) ==
  LET time == IF d.t = <<>> THEN <<>> ELSE <<TimeText(d.t[1] + (IF Mut = "local" THEN 3600 ELSE 0))>>
      of(f) == IF f = "t" THEN time ELSE IF Mut = "swap" /\ f = "man" THEN d["mod"] ELSE IF Mut = "nocid" /\ f = "cid" THEN <<>> ELSE d[f] IN
  Element("d", FlattenSeq([j \in 1..9 |-> LET f == <<"lid", "ns", "id", "if", "man", "mod", "sn", "t", "cid">>[j] IN AttrOf(f, of(f))]),
          "", [j \in DOMAIN d.models |-> WModel(d.models[j])])

Build == /\ pc = "build" /\ Emit([e |-> "built", rec |-> rec])
         /\ root' = Element("sunSpecData", AttrOf("v", rec.v), "", <<>>) /\ pc' = "write" /\ UNCHANGED <<rec, odd, i, out>>
Write == /\ pc = "write"
         /\ IF i <= Len(rec.devs)
            THEN root' = [root EXCEPT !.k = Append(@, WDevice(rec.devs[i]))] /\ i' = i + 1 /\ UNCHANGED <<rec, odd, pc, out, s, bad>>
            ELSE /\ Emit([e |-> "doc", r |-> 1, kind |-> "ok", same |-> TRUE, doc |-> root, nums |-> <<>>, ints |-> SetToSeq(Ints)])
                 /\ pc' = "spoil" /\ i' = 1 /\ UNCHANGED <<rec, odd, root, out>>
(* an element where it does not belong                                      *)
X == Element("q", <<>>, "", <<>>)
Spoil == /\ pc = "spoil" /\ pc' = "read"
         /\ root' = CASE odd = "root" -> [root EXCEPT !.g = "data"]
                      [] odd = "device" -> [root EXCEPT !.k = Append(@, X)]
                      [] odd = "model" /\ root.k # <<>> -> [root EXCEPT !.k[1].k = Append(@, X)]
                      [] odd = "point" /\ root.k # <<>> /\ root.k[1].k # <<>> -> [root EXCEPT !.k[1].k[1].k = Append(@, X)]
                      [] OTHER -> root
         /\ s' = [s EXCEPT !.cfg.docs = <<root'>>] /\ UNCHANGED <<rec, odd, i, out, bad>>
Odd(d) == \/ d.g # "d" /\ Mut # "lax1"
          \/ \E j \in DOMAIN d.k : (d.k[j].g # "m" /\ Mut # "lax2") \/ \E l \in DOMAIN d.k[j].k : d.k[j].k[l].g # "p" /\ Mut # "lax3"
Read == /\ pc = "read"
        /\ IF root.g # "sunSpecData" \/ (i <= Len(root.k) /\ Odd(root.k[i]))
           THEN Emit([e |-> "parse", n |-> 1, kind |-> "sdxerr"]) /\ pc' = "end" /\ UNCHANGED <<rec, odd, i, root, out>>
           ELSE IF i <= Len(root.k)
           THEN out' = [out EXCEPT !.devs = Append(@, LET d == DeviceIn(Ints, root.k[i]) IN IF Mut = "notime" THEN [d EXCEPT !.t = <<>>] ELSE d)]
                /\ i' = i + 1 /\ UNCHANGED <<rec, odd, pc, root, s, bad>>
           ELSE Emit([e |-> "parse", n |-> 1, kind |-> "ok", rec |-> [out EXCEPT !.v = Opt(root, "v")]]) /\ pc' = "end"
                /\ UNCHANGED <<rec, odd, i, root, out>>
Next == bad = {} /\ (Build \/ Write \/ Spoil \/ Read)
Spec == Init /\ [][Next]_vars
NoViolation == bad = {}
=============================================================================
