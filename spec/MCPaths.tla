------------------------------- MODULE MCPaths --------------------------------
(***************************************************************************)
(* A library with path lists, one active list, scopes that remember the     *)
(* list before them, and lookups.  Places: d1, d2 directories, z a zip      *)
(* file, no a place that is missing.  Mut plants a design error.            *)
(***************************************************************************)
EXTENDS Paths, Json
CONSTANTS Ops, Deep, Mut, Record

F(at, name, c) == [at |-> at, name |-> name, c |-> c]
Names == {"a", "b"}
Cfg == [hasdef |-> TRUE,
        files |-> <<F("d1", "a", 1), F("d2", "a", 2), F("d2", "b", 3), F("z", "b", 4), F("local", "a", 6), F("default", "b", 7)>>]
Entries == {"d1", "d2", "z", "no"}
Lists == {<<>>, <<"d1">>, <<"no", "d2">>, <<"z", "d2">>, <<"d2", "z", "d1">>}

VARIABLES s, bad, heap, cur, saves, cache, n, script
vars == <<s, bad, heap, cur, saves, cache, n, script>>
(* heap: the path lists; cur: the active one, 0 if none; saves: of scopes    *)
Init == s = InitState(Cfg) /\ bad = {} /\ heap = <<>> /\ cur = 0 /\ saves = <<>> /\ cache = {} /\ n = 0 /\ script = <<>>

Do(e, x) == /\ bad' = Clauses(s, e) /\ s' = Step(s, e) /\ n' = n + 1 /\ script' = Append(script, x)
RECURSIVE Find(_, _)
Find(ps, name) ==
  IF ps = <<>> THEN 0
  ELSE IF Mut = "reverse" /\ Has(s, Last(ps), name) THEN Content(s, Last(ps), name)
  ELSE IF Mut = "reverse" THEN Find(SubSeq(ps, 1, Len(ps) - 1), name)
  ELSE IF ps[1] = "no" /\ Mut = "stop" THEN 0
  ELSE IF Has(s, ps[1], name) THEN Content(s, ps[1], name)
  ELSE IF ps[1] = "z" /\ Mut = "zipends" THEN 0
  ELSE Find(Tail(ps), name)
Out(c) == [kind |-> IF c = 0 THEN "none" ELSE "ok", c |-> c]
Or(a, b) == IF a # 0 THEN a ELSE b
List(l) == IF l = 0 THEN <<>> ELSE heap[l]

New == /\ Len(heap) < 3
       /\ \E at \in Lists : /\ Do([e |-> "list", at |-> at], [op |-> "list", at |-> at])
                            /\ heap' = Append(heap, IF Mut = "shared" /\ heap # <<>> /\ at = <<>> THEN heap[1] ELSE at)
       /\ UNCHANGED <<cur, saves, cache>>
AddTo == \E l \in 0..Len(heap) : \E at \in Entries :
           LET k == IF l = 0 THEN cur ELSE l IN
           /\ k # 0 /\ Len(heap[k]) < 4
           /\ Do([e |-> "add", l |-> l, at |-> at], [op |-> "add", l |-> l, at |-> at])
           /\ heap' = [heap EXCEPT ![k] = IF Mut = "front" THEN <<at>> \o @ ELSE Append(@, at)]
           /\ UNCHANGED <<cur, saves, cache>>
Assign == \E l \in 0..Len(heap) : Do([e |-> "assign", l |-> l], [op |-> "assign", l |-> l]) /\ cur' = l /\ UNCHANGED <<heap, saves, cache>>
Enter == /\ Len(saves) < Deep
         /\ \E at \in Lists : /\ Do([e |-> "enter", at |-> at], [op |-> "enter", at |-> at])
                              /\ heap' = Append(heap, at) /\ cur' = Len(heap) + 1
                              /\ saves' = Append(saves, cur)
         /\ UNCHANGED cache
Leave == /\ saves # <<>>
         /\ \E exc \in BOOLEAN :
              /\ Do([e |-> "leave", in |-> exc, out |-> exc], [op |-> "leave", exc |-> exc])
              /\ cur' = IF exc /\ Mut = "noexc" THEN cur ELSE IF Mut = "drop" THEN 0 ELSE IF Mut = "outer" THEN saves[1] ELSE Last(saves)
         /\ saves' = SubSeq(saves, 1, Len(saves) - 1) /\ UNCHANGED <<heap, cache>>
Read == \E l \in 1..Len(heap), name \in Names :
          Do([e |-> "read", l |-> l, name |-> name] @@ Out(Find(heap[l], name)), [op |-> "read", l |-> l, name |-> name])
          /\ UNCHANGED <<heap, cur, saves, cache>>
Model == \E name \in Names :
           LET local == IF Has(s, "local", name) THEN Content(s, "local", name) ELSE IF Has(s, "default", name) THEN Content(s, "default", name) ELSE 0
               hit == {c \in cache : c[1] = name}
               c == IF Mut = "cache" /\ hit # {} THEN (CHOOSE x \in hit : TRUE)[2]
                    ELSE IF Mut = "defaults" THEN Or(local, Find(List(cur), name)) ELSE Or(Find(List(cur), name), local) IN
           /\ Do([e |-> "model", name |-> name] @@ Out(c), [op |-> "model", name |-> name])
           /\ cache' = IF Mut = "cache" /\ c # 0 THEN cache \cup {<<name, c>>} ELSE cache
           /\ UNCHANGED <<heap, cur, saves>>
Pics == \E l \in 0..Len(heap), name \in Names :
          LET local == IF Has(s, "local", name) THEN Content(s, "local", name) ELSE 0 IN
          /\ Do([e |-> "pics", l |-> l, name |-> name]
                @@ Out(IF Mut = "active" THEN Or(Find(List(cur), name), Or(Find(List(l), name), local))
                       ELSE Or(Find(List(l), name), Or(Find(List(cur), name), local))), [op |-> "pics", l |-> l, name |-> name])
          /\ UNCHANGED <<heap, cur, saves, cache>>
Next == bad = {} /\ n < Ops /\ (New \/ AddTo \/ Assign \/ Enter \/ Leave \/ Read \/ Model \/ Pics)
Spec == Init /\ [][Next]_vars
View == <<s, bad, heap, cur, saves, cache, n>>
NoViolation == bad = {}
InStep == Mut = "none" => (heap = s.lists /\ cur = s.active /\ saves = s.saved)
PrintScripts == (Record /\ n = Ops) => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
