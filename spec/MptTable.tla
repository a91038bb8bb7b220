------------------------------ MODULE MptTable ------------------------------
(* Writes, for every content of a small universe, what the definition says:  *)
(* root, stored nodes with their exact encoding, proof of every key.         *)
EXTENDS MptUni, Json, IOUtils
Options(k) == {0} \cup Mine(k)
RECURSIVE AllC(_)
AllC(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, v) : s \in AllC(n - 1), v \in Options(n)}
RECURSIVE NodesOf(_)
NodesOf(x) == (IF x.id # 0 THEN {[h |-> x.id, s |-> x.s]} ELSE {}) \cup UNION {NodesOf(x.ch[i]) : i \in 1..Len(x.ch)}
Entry(con) == LET r == TLCEval(Root(G, <<>>, con)) IN
              [c |-> con, root |-> r.id, nodes |-> SetToSeq(NodesOf(r)), proof |-> [k \in 1..NK |-> ProofOf(G, r, k)]]
Table == [kn |-> KN, vals |-> VALS, contents |-> SetToSeq({Entry(con) : con \in AllC(NK)})]
TInit == Init /\ JsonSerialize(IOEnv.OUT, Table)
TSpec == TInit /\ [][FALSE]_vars
=============================================================================
