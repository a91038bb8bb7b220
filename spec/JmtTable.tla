------------------------------ MODULE JmtTable ------------------------------
(* Writes, for every content of a small universe, what the definitions say:  *)
(* the sparse Merkle tree over the key bits (root, the exact proof of every  *)
(* key) and the minimal tree of sixteen-way nodes.  A hash is given as a     *)
(* term: <<>> the empty subtree, <<k, v>> the leaf of key k with value v,    *)
(* <<l, r>> an inner node with the terms l and r.                            *)
EXTENDS JmtUni, Json, IOUtils
RECURSIVE AllC(_)
AllC(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, v) : s \in AllC(n - 1), v \in 0..NV}
Pow(i) == <<8, 4, 2, 1>>[i + 1]
Bit(k, b) == (KJ[k][(b \div 4) + 1] \div Pow(b % 4)) % 2
(* D: the keys present below a place b bits deep                             *)
RECURSIVE Term(_, _, _)
Term(con, D, b) ==
  IF D = {} THEN <<>>
  ELSE IF Cardinality(D) = 1 THEN LET k == CHOOSE x \in D : TRUE IN <<k, con[k]>>
  ELSE <<Term(con, {k \in D : Bit(k, b) = 0}, b + 1), Term(con, {k \in D : Bit(k, b) = 1}, b + 1)>>
(* down the key's bits to where at most one key is left; siblings bottom up  *)
RECURSIVE Descend(_, _, _, _)
Descend(con, D, b, k) ==
  IF Cardinality(D) <= 1 THEN [leaf |-> Term(con, D, b), sibs |-> <<>>]
  ELSE LET r == TLCEval(Descend(con, {x \in D : Bit(x, b) = Bit(k, b)}, b + 1, k))
       IN [leaf |-> r.leaf, sibs |-> Append(r.sibs, Term(con, {x \in D : Bit(x, b) # Bit(k, b)}, b + 1))]
Node16(con, D0, p) ==
  LET n == p[1]
      D == Under(G, D0, n, p[2])
      nibs == Sorted({Nib(k, n) : k \in D})
      E(i) == {k \in D : Nib(k, n) = nibs[i]}
  IN [p |-> SubSeq(KJ[p[2]], 1, n),
      key |-> IF Cardinality(D) = 1 THEN CHOOSE k \in D : TRUE ELSE 0,
      cnt |-> Cardinality(D),
      ch |-> IF Cardinality(D) <= 1 THEN <<>>
             ELSE [i \in 1..Len(nibs) |-> [nib |-> nibs[i], leaf |-> Cardinality(E(i)) = 1, cnt |-> Cardinality(E(i)),
                                            h |-> Term(con, E(i), 4 * (n + 1))]]]
Entry(s) ==
  LET con == [k \in {x \in 1..NK : s[x] # 0} |-> s[k]]
      D == DOMAIN con
  IN [c |-> s, root |-> Term(con, D, 0),
      nodes |-> SetToSeq({Node16(con, D, p) : p \in Positions(G, D)}),
      proof |-> [k \in 1..NK |-> Descend(con, D, 0, k)]]
Table == [kj |-> KJ, nv |-> NV, contents |-> SetToSeq({Entry(s) : s \in AllC(NK)})]
TInit == Init /\ JsonSerialize(IOEnv.OUT, Table)
TSpec == TInit /\ [][FALSE]_vars
=============================================================================
