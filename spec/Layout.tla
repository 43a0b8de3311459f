-------------------------------- MODULE Layout --------------------------------
(***************************************************************************)
(* Where the blocks and points of a model instance lie.                     *)
(* A definition is [id, len, name, fl, fp, rep, rl, rp, rn]: defined length, *)
(* fixed block length and points, whether there is a repeating block, its    *)
(* length, points and name.  A point is [id, off, t, len, sf] with sf.k one  *)
(* of none, const (sf.v) and pt (sf.n).  An instance is [id, addr, len].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

RealPoints(ps) == SelectSeq(ps, LAMBDA p : p.t \notin {"pad", "sunssf"})
SfPoints(ps) == SelectSeq(ps, LAMBDA p : p.t = "sunssf")
HasSf(ps, n) == \E i \in DOMAIN ps : ps[i].t = "sunssf" /\ ps[i].id = n

NoBind == [k |-> "none", v |-> 0, blk |-> 0, id |-> ""]
(* the scale factor of a point of block i (0 is the fixed block)            *)
Bind(def, own, i, p) ==
  IF p.sf.k = "none" THEN NoBind
  ELSE IF p.sf.k = "const" THEN [NoBind EXCEPT !.k = "const", !.v = p.sf.v]
  ELSE IF HasSf(own, p.sf.n) THEN [k |-> "pt", v |-> 0, blk |-> i, id |-> p.sf.n]
  ELSE IF i > 0 /\ HasSf(def.fp, p.sf.n) THEN [k |-> "pt", v |-> 0, blk |-> 0, id |-> p.sf.n]
  ELSE [NoBind EXCEPT !.k = "unresolved"]

Place(def, ps, i, addr, len, typ) ==
  LET real == RealPoints(ps)
      sfs == SfPoints(ps) IN
  [addr |-> addr, len |-> len, type |-> typ, index |-> i,
   pts |-> [j \in DOMAIN real |-> [id |-> real[j].id, addr |-> addr + real[j].off, len |-> real[j].len, t |-> real[j].t,
                                   sf |-> Bind(def, ps, i, real[j])]],
   sfs |-> [j \in DOMAIN sfs |-> [id |-> sfs[j].id, addr |-> addr + sfs[j].off]]]

(* [ok, len, blocks]                                                         *)
LayOut(def, id, addr, mlen) ==
  LET len == IF mlen = 0 THEN def.len ELSE mlen
      fl == IF id = 1 /\ len = 65 THEN 65 ELSE def.fl
      left == len - fl
      n == IF ~def.rep \/ left <= 0 THEN 0 ELSE IF def.rl = 0 THEN -1 ELSE left \div def.rl
      bad == left < 0 \/ (def.rep /\ left > 0 /\ (def.rl = 0 \/ left % def.rl # 0))
      blocks == <<Place(def, def.fp, 0, addr, fl, "fixed")>>
                \o [i \in 1..n |-> Place(def, def.rp, i, addr + fl + (i - 1) * def.rl, def.rl, "repeating")]
      loose == \E i \in DOMAIN blocks : \E j \in DOMAIN blocks[i].pts : blocks[i].pts[j].sf.k = "unresolved" IN
  IF bad THEN [ok |-> FALSE, len |-> len, blocks |-> <<>>]
  ELSE [ok |-> ~loose, len |-> len, blocks |-> blocks]
=============================================================================
