------------------------------ MODULE JmtCore ------------------------------
(* What a version of the Jellyfish Merkle tree is, as a function of its     *)
(* contents only.  Keys are numbered 1..n in key order; KN[k] is the nibble *)
(* sequence of key k.  A content is a function from key ids to value ids.   *)
(* A tree position is <<number of nibbles, smallest key id below it>>.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

None == -1
Err == -2

----------------------------------------------------------------------------
(* geometry of a key universe: G.n keys, G.cpn / G.cpb common prefix        *)
(* lengths in nibbles / bits, G.kn the nibbles.                             *)
LcpN(a, b) == LET d == {i \in 1..Len(a) : a[i] # b[i]}
              IN IF d = {} THEN Len(a) ELSE Min(d) - 1
NibBits(x, y) == IF x \div 8 # y \div 8 THEN 0
                 ELSE IF x \div 4 # y \div 4 THEN 1
                 ELSE IF x \div 2 # y \div 2 THEN 2
                 ELSE IF x # y THEN 3 ELSE 4
LcpB(a, b) == LET n == LcpN(a, b)
              IN IF n = Len(a) THEN 4 * n ELSE 4 * n + NibBits(a[n + 1], b[n + 1])

(* keys are listed in increasing order, so a common prefix of two keys is   *)
(* the shortest of the common prefixes of the neighbours between them       *)
Geometry(kn) ==
  LET n == Len(kn)
      adjN == [i \in 1..(n - 1) |-> LcpN(kn[i], kn[i + 1])]
      adjB == [i \in 1..(n - 1) |-> LcpB(kn[i], kn[i + 1])]
      (* row a: running minimum from a to the right *)
      row(adj, full, a) == FoldLeft(LAMBDA acc, b : Append(acc, Min({acc[Len(acc)], adj[b - 1]})),
                                    <<full>>, [i \in 1..(n - a) |-> a + i])
      rowsN == TLCEval([a \in 1..n |-> row(adjN, Len(kn[a]), a)])
      rowsB == TLCEval([a \in 1..n |-> row(adjB, 4 * Len(kn[a]), a)])
      cp(rows, a, b) == IF a <= b THEN rows[a][b - a + 1] ELSE rows[b][a - b + 1]
  IN [n |-> n, kn |-> kn,
      len |-> IF n = 0 THEN 0 ELSE Len(kn[1]),
      cpn |-> [a \in 1..n |-> [b \in 1..n |-> cp(rowsN, a, b)]],
      cpb |-> [a \in 1..n |-> [b \in 1..n |-> cp(rowsB, a, b)]]]
GeometryOk(g) ==
  \A i \in 1..(g.n - 1) :
    LET d == g.cpn[i][i + 1] IN d < g.len /\ g.kn[i][d + 1] < g.kn[i + 1][d + 1]

Under(g, D, n, k) == {x \in D : g.cpn[x][k] >= n}     \* keys of D below position <<n, k>>
UnderB(g, D, b, k) == {x \in D : g.cpb[x][k] >= b}    \* the same, b bits deep
Rep(g, n, k) == IF n = 0 THEN 1 ELSE Min({x \in 1..g.n : g.cpn[x][k] >= n})
Pos(g, n, k) == <<n, Rep(g, n, k)>>

----------------------------------------------------------------------------
(* Hash symbols: what a node's hash is a function of (and, as the hash      *)
(* function is collision free, is determined by).  An empty subtree and a   *)
(* subtree with one key hash independently of where they hang.              *)
Empty == <<-1, {}>>
Sym(c, D, b) == <<IF Cardinality(D) <= 1 THEN -1 ELSE b, {<<k, c[k]>> : k \in D}>>
RootSym(c) == Sym(c, DOMAIN c, 0)

(* The canonical proof for key k: the sibling symbols from the resting      *)
(* place up, and the leaf found there.                                      *)
(* how many siblings: the depth at which at most one present key is left    *)
Depth(g, D, k) ==
  IF Cardinality(D) <= 1 THEN 0
  ELSE LET m == Max({g.cpb[x][k] : x \in D})
           top == {x \in D : g.cpb[x][k] = m}
       IN 1 + IF Cardinality(top) > 1 THEN m ELSE Max({g.cpb[x][k] : x \in D \ top})
ProofSibs(g, c, k) ==
  LET D == DOMAIN c
      n == Depth(g, D, k)
  IN TLCEval([i \in 1..n |-> Sym(c, {x \in D : g.cpb[x][k] = n - i}, n - i + 1)])
ProofLeaf(g, c, k) ==
  LET D == UnderB(g, DOMAIN c, Depth(g, DOMAIN c, k), k)
  IN IF D = {} THEN <<>> ELSE LET x == CHOOSE y \in D : TRUE IN <<x, c[x]>>

----------------------------------------------------------------------------
ValueOf(c, k) == IF k \in DOMAIN c THEN c[k] ELSE None
ApplyOp(c, op) == IF op[2] = None THEN [k \in (DOMAIN c) \ {op[1]} |-> c[k]]
                  ELSE (op[1] :> op[2]) @@ c
RECURSIVE ApplySet(_, _)
ApplySet(c, s) == IF s = <<>> THEN c ELSE ApplySet(ApplyOp(c, s[1]), Tail(s))

(* the keys an operation list really touches: written, or deleted while     *)
(* present                                                                  *)
RECURSIVE Touched(_, _)
Touched(c, s) ==
  IF s = <<>> THEN {}
  ELSE (IF s[1][2] # None \/ s[1][1] \in DOMAIN c THEN {s[1][1]} ELSE {})
       \cup Touched(ApplyOp(c, s[1]), Tail(s))

(* increasing sequence of a set of key ids *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o Sorted(S \ {m})
(* key/value pairs of c with key id >= lo, in key order *)
PairsFrom(c, lo) == LET s == Sorted({k \in DOMAIN c : k >= lo})
                    IN [i \in 1..Len(s) |-> <<s[i], c[s[i]]>>]
DropFirst(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))

----------------------------------------------------------------------------
(* Structure.  st maps <<version, n, k>> to node records                    *)
(*   [t: "N"|"L"|"I", key, val, cnt, ch: sequence of                        *)
(*    <<nibble, child key rep, child version, is leaf, leaf count, hash>>]. *)
(* The nodes reachable from root nk, level by level.                        *)
Reach(st, nk, depth) ==
  LET Step(acc, i) ==
        IF acc[2] = {} THEN acc
        ELSE LET nxt == TLCEval(UNION {{<<st[x].ch[j][3], x[2] + 1, st[x].ch[j][2]>> : j \in 1..Len(st[x].ch)}
                                       : x \in acc[2]} \cap DOMAIN st)
             IN <<acc[1] \cup nxt, nxt>>
      r == {nk} \cap DOMAIN st
  IN FoldLeft(Step, <<r, r>>, [i \in 1..depth |-> i])[1]

(* nibble depth at which key k of D rests                                   *)
LeafDepth(g, D, k) == IF D = {k} THEN 0 ELSE 1 + Max({g.cpn[x][k] : x \in D \ {k}})
(* the positions of the minimal tree for the keys D                         *)
Positions(g, D) ==
  IF D = {} THEN {<<0, 1>>}
  ELSE UNION {{Pos(g, n, k) : n \in 0..LeafDepth(g, D, k)} : k \in D}

(* node nk with record node is what belongs there in content c              *)
NodeOk(g, c, nk, node) ==
  LET D == Under(g, DOMAIN c, nk[2], nk[3])
  IN IF D = {} THEN nk[2] = 0 /\ node.t = "N"
     ELSE IF Cardinality(D) = 1
       THEN /\ node.t = "L"
            /\ node.key \in D
            /\ node.val = c[node.key]
     ELSE LET nibs == {g.kn[k][nk[2] + 1] : k \in D}
              ch == node.ch
          IN /\ node.t = "I"
             /\ {ch[i][1] : i \in 1..Len(ch)} = nibs
             /\ Len(ch) = Cardinality(nibs)
             /\ node.cnt = Cardinality(D)
             /\ \A i \in 1..Len(ch) :
                  LET E == {k \in D : g.kn[k][nk[2] + 1] = ch[i][1]}
                  IN /\ ch[i][2] = Rep(g, nk[2] + 1, CHOOSE k \in E : TRUE)
                     /\ ch[i][3] <= nk[1]
                     /\ ch[i][4] = (IF Cardinality(E) = 1 THEN 1 ELSE 0)
                     /\ ch[i][5] = Cardinality(E)
(* R, the nodes reachable from a root, form the minimal tree for content c  *)
WellFormed(g, st, c, R) ==
  /\ {<<nk[2], nk[3]>> : nk \in R} = Positions(g, DOMAIN c)
  /\ Cardinality(R) = Cardinality(Positions(g, DOMAIN c))
  /\ \A nk \in R : NodeOk(g, c, nk, st[nk])

(* <<hash id, symbol>> for every child hash of a well-formed tree           *)
HashObs(g, st, c, R) ==
  UNION {LET ch == st[nk].ch IN
         {<<ch[i][6], Sym(c, Under(g, DOMAIN c, nk[2] + 1, ch[i][2]), 4 * (nk[2] + 1))>> : i \in 1..Len(ch)}
         : nk \in R}

(* hash ids and symbols determine each other *)
OneToOne(S) == /\ Cardinality({p[1] : p \in S}) = Cardinality(S)
               /\ Cardinality({p[2] : p \in S}) = Cardinality(S)
=============================================================================
