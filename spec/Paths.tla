-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Where files come from: path lists, the active path list and its scopes,  *)
(* and the lookups of definitions, PICS documents and Modbus maps.          *)
(*                                                                          *)
(* cfg = [files, hasdef]: files are [at, name, c]: place, name, content.    *)
(* The places "local" and "default" are the working directory and the       *)
(* default place of definitions; the others are named by path list entries. *)
(* Events: list, add, assign, enter, leave; read, model, pics, map lookups  *)
(* with their outcome; file (a model id and its file name).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

InitState(cfg) == [cfg |-> cfg, lists |-> <<>>, active |-> 0, saved |-> <<>>]

Has(s, at, name) == \E i \in DOMAIN s.cfg.files : s.cfg.files[i].at = at /\ s.cfg.files[i].name = name
Content(s, at, name) == LET i == CHOOSE i \in DOMAIN s.cfg.files : s.cfg.files[i].at = at /\ s.cfg.files[i].name = name IN s.cfg.files[i].c
(* the first content along a sequence of places, or 0                       *)
RECURSIVE First(_, _, _)
First(s, places, name) ==
  IF places = <<>> THEN 0
  ELSE IF Has(s, places[1], name) THEN Content(s, places[1], name)
  ELSE First(s, Tail(places), name)
Places(s, l) == IF l = 0 THEN <<>> ELSE s.lists[l]
(* the contents a lookup may give: those of the first list that has it, or  *)
(* any of the default places                                                *)
RECURSIVE Among(_, _, _, _)
Among(s, lists, defaults, name) ==
  IF lists = <<>> THEN {Content(s, d, name) : d \in {d \in defaults : Has(s, d, name)}}
  ELSE LET c == First(s, lists[1], name) IN IF c # 0 THEN {c} ELSE Among(s, Tail(lists), defaults, name)

Pad5(n) == (IF n < 10 THEN "0000" ELSE IF n < 100 THEN "000" ELSE IF n < 1000 THEN "00" ELSE IF n < 10000 THEN "0" ELSE "") \o ToString(n)

Judge(may, e, clause) ==
  IF e.kind = "ok" THEN (IF e.c \notin may THEN {clause} ELSE {})
  ELSE IF e.kind # "none" THEN {"path.untyped"}
  ELSE IF may # {} THEN {clause} ELSE {}
Clauses(s, e) ==
  CASE e.e = "read" -> LET c == First(s, Places(s, e.l), e.name) IN Judge(IF c = 0 THEN {} ELSE {c}, e, "path.read")
    [] e.e = "model" -> Judge(Among(s, <<Places(s, s.active)>>, IF s.cfg.hasdef THEN {"local", "default"} ELSE {"local"}, e.name), e, "path.model")
    [] e.e = "pics" -> Judge(Among(s, <<Places(s, e.l), Places(s, s.active)>>, {"local"}, e.name), e, "path.pics")
    [] e.e = "map" -> Judge(IF e.l = 0 THEN Among(s, <<>>, {"local"}, e.name) ELSE Among(s, <<Places(s, e.l)>>, {}, e.name), e, "path.map")
    [] e.e = "leave" -> (IF s.saved = <<>> THEN {"harness.scope"} ELSE IF e.out # e.in THEN {"path.scope"} ELSE {})
    [] e.e = "file" -> (IF e.name # "smdx_" \o Pad5(e.id) \o ".xml" \/ e.back # e.id THEN {"path.names"} ELSE {})
    [] e.e = "nofile" -> (IF e.back # -1 THEN {"path.names"} ELSE {})
    [] OTHER -> {}

Step(s, e) ==
  CASE e.e = "list" -> [s EXCEPT !.lists = Append(@, e.at)]
    [] e.e = "add" -> [s EXCEPT !.lists[IF e.l = 0 THEN s.active ELSE e.l] = Append(@, e.at)]
    [] e.e = "assign" -> [s EXCEPT !.active = e.l]
    [] e.e = "enter" -> [s EXCEPT !.saved = Append(@, s.active), !.lists = Append(@, e.at), !.active = Len(s.lists) + 1]
    [] e.e = "leave" -> [s EXCEPT !.active = s.saved[Len(s.saved)], !.saved = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> s
=============================================================================
