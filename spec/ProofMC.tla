------------------------------ MODULE ProofMC ------------------------------
(* Sparse Merkle proofs against an adversary.  Hashes are terms (no          *)
(* collisions); the verifier is transcribed from                             *)
(* jmt/src/types/proof/definition.rs.  The adversary knows a tree, picks any *)
(* leaf and appends any siblings it can name; in every state, every claim    *)
(* about every key is put to the verifier.                                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS KB,        \* keys as bit sequences, in order
          NV, Depth,
          DomainSep    \* TRUE; FALSE (a node may pass for a leaf) shows what it is needed for

VARIABLES con, root, leaf, sibs
vars == <<con, root, leaf, sibs>>
NK == Len(KB)
RECURSIVE AllC(_)
AllC(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, v) : s \in AllC(n - 1), v \in 0..NV}
Node(a, b) == <<"node", a, b>>
Leaf(k, v) == <<"leaf", k, v>>
Empty == <<"empty">>
RECURSIVE Term(_, _, _)
Term(c, D, b) ==
  IF D = {} THEN Empty
  ELSE IF Cardinality(D) = 1 THEN LET k == CHOOSE x \in D : TRUE IN Leaf(k, c[k])
  ELSE Node(Term(c, {k \in D : KB[k][b + 1] = 0}, b + 1), Term(c, {k \in D : KB[k][b + 1] = 1}, b + 1))
Present(c) == {k \in 1..NK : c[k] # 0}
RECURSIVE Sub(_)
Sub(t) == {t} \cup IF t[1] = "node" THEN Sub(t[2]) \cup Sub(t[3]) ELSE {}
Pool == Sub(root) \cup {Empty, <<"unknown">>}
(* a leaf is none, any key with any value, or two hashes of the tree passed  *)
(* off as key hash and value hash                                            *)
Leaves == {Empty} \cup {Leaf(k, v) : k \in 1..NK, v \in 1..NV}
          \cup {<<"forged", t[2], t[3]>> : t \in {x \in Sub(root) : x[1] = "node"}}

Init == \E c \in AllC(NK) : /\ con = c /\ root = Term(c, Present(c), 0)
                            /\ sibs = <<>> /\ leaf \in Leaves
Next == /\ Len(sibs) < Depth      \* (longer lists are refused, see Accepts)
        /\ \E t \in Pool : sibs' = Append(sibs, t)
        /\ UNCHANGED <<con, root, leaf>>

Lcp(a, b) == LET d == {i \in 1..Depth : KB[a][i] # KB[b][i]} IN IF d = {} THEN Depth ELSE Min(d) - 1
LeafHash == IF leaf[1] = "forged" /\ ~DomainSep THEN Node(leaf[2], leaf[3]) ELSE leaf
(* siblings are listed from the bottom up                                    *)
RECURSIVE Fold(_, _, _)
Fold(h, i, k) == IF i > Len(sibs) THEN h
                 ELSE Fold(IF KB[k][Len(sibs) - i + 1] = 1 THEN Node(sibs[i], h) ELSE Node(h, sibs[i]), i + 1, k)
(* claim: key k has value v (v = 0: is absent)                               *)
Accepts(k, v) ==
  /\ Len(sibs) <= Depth
  /\ IF v # 0 THEN leaf = Leaf(k, v)
     ELSE IF leaf = Empty THEN TRUE
     ELSE IF leaf[1] = "forged" THEN TRUE      \* its key may be anything
     ELSE leaf[2] # k /\ Lcp(k, leaf[2]) >= Len(sibs)
  /\ Fold(LeafHash, 1, k) = root
Sound == \A k \in 1..NK : \A v \in 0..NV : Accepts(k, v) => con[k] = v
(* and the canonical proof is accepted                                       *)
RECURSIVE Canon(_, _, _)
Canon(D, b, k) ==
  IF Cardinality(D) <= 1 THEN <<Term(con, D, b), <<>>>>
  ELSE LET r == Canon({x \in D : KB[x][b + 1] = KB[k][b + 1]}, b + 1, k)
       IN <<r[1], Append(r[2], Term(con, {x \in D : KB[x][b + 1] # KB[k][b + 1]}, b + 1))>>
Complete == \A k \in 1..NK : Canon(Present(con), 0, k) = <<leaf, sibs>> => Accepts(k, con[k])
(* there is exactly one accepted proof for a claim                           *)
Unique == \A k \in 1..NK : \A v \in 0..NV : Accepts(k, v) => Canon(Present(con), 0, k) = <<leaf, sibs>>
Spec == Init /\ [][Next]_vars
=============================================================================
