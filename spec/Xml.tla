--------------------------------- MODULE Xml ---------------------------------
(***************************************************************************)
(* Element trees.  An element is [g, a, x, k]: tag, attributes as a         *)
(* sequence of <<name, text>>, text ("" if none) and child elements.        *)
(* ints is a set of <<text, number>>: which texts are numbers, and which.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Element(g, a, x, k) == [g |-> g, a |-> a, x |-> x, k |-> k]
Has(e, n) == \E i \in DOMAIN e.a : e.a[i][1] = n
At(e, n, default) == IF Has(e, n) THEN e.a[CHOOSE i \in DOMAIN e.a : e.a[i][1] = n][2] ELSE default
Kids(e, g) == SelectSeq(e.k, LAMBDA c : c.g = g)

IsInt(ints, t) == \E p \in ints : p[1] = t
IntOf(ints, t) == (CHOOSE p \in ints : p[1] = t)[2]
(* a number, or -1 if there is none                                         *)
IntAt(ints, e, n) == IF Has(e, n) /\ IsInt(ints, At(e, n, "")) THEN IntOf(ints, At(e, n, "")) ELSE -1
HasInt(ints, e, n) == Has(e, n) /\ IsInt(ints, At(e, n, ""))

(* the text of the last child with the tag, or the given one                *)
TextOf(e, g, before) == LET s == Kids(e, g) IN IF s = <<>> THEN before ELSE s[Len(s)].x
=============================================================================
