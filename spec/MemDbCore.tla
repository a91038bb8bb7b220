----------------------------- MODULE MemDbCore -----------------------------
(* The in-memory node database as an atomic map: the effect and the result  *)
(* of every operation.  o: [op, k, v, ks, vs, left]; light: are removals     *)
(* carried out?; base: number of entries that are never touched.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

Absent == -1
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Drop(m, light, k) == IF light THEN [x \in DOMAIN m \ {k} |-> m[x]] ELSE m
Pairs(m) == {<<x, m[x]>> : x \in DOMAIN m}
(* the map after the operation (a batch: after its next item)                *)
After(m, light, o) ==
  CASE o.op = "ins" -> Put(m, o.k, o.v)
    [] o.op = "rem" -> Drop(m, light, o.k)
    [] o.op = "insb" -> (LET i == Len(o.ks) - o.left + 1 IN Put(m, o.ks[i], o.vs[i]))
    [] o.op = "remb" -> (LET i == Len(o.ks) - o.left + 1 IN Drop(m, light, o.ks[i]))
    [] OTHER -> m
(* the result it gives (a listing: the number of entries)                    *)
Result(m, base, o) ==
  LET size == base + Cardinality(DOMAIN m) IN
  CASE o.op \in {"ins", "rem", "insb", "remb"} -> 0
    [] o.op = "get" -> IF o.k \in DOMAIN m THEN m[o.k] ELSE Absent
    [] o.op \in {"len", "values"} -> size
    [] o.op = "empty" -> IF size = 0 THEN 1 ELSE 0
=============================================================================
