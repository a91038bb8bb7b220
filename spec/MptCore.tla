------------------------------ MODULE MptCore ------------------------------
(* What an Ethereum Merkle Patricia trie is, as a function of its contents  *)
(* only: structure, exact RLP encoding, which nodes are stored, proofs.     *)
(* Keys are numbered 1..n in lexicographic order (a prefix comes first);    *)
(* kn[k] is the nibble sequence of key k, so keys may be prefixes of each   *)
(* other and may be empty.  A content is a sequence c: c[k] is the value id *)
(* of key k, or 0.                                                          *)
(* Encodings are sequences of tokens: 0..255 is a byte, -i (i < 1000000)    *)
(* the 32-byte hash with id i, -(1000000+v) the whole of the long value v.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

None == -1
Err == -2
HASH == 32

Lcp(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                 d == {i \in 1..m : a[i] # b[i]}
             IN IF d = {} THEN m ELSE Min(d) - 1
(* vals[v] = [b |-> tokens, n |-> length in bytes]                           *)
Geo(kn, vals) ==
  LET n == Len(kn)
      adj == [i \in 1..(n - 1) |-> Lcp(kn[i], kn[i + 1])]
      cp(a, b) == IF a = b THEN Len(kn[a])
                  ELSE LET lo == IF a < b THEN a ELSE b
                           hi == IF a < b THEN b ELSE a
                       IN Min({adj[i] : i \in lo..(hi - 1)})
  IN [n |-> n, kn |-> kn, vals |-> vals, sym |-> FALSE, cp |-> [a \in 1..n |-> [b \in 1..n |-> cp(a, b)]]]
GeoOk(g) == \A i \in 1..(g.n - 1) :
    LET d == g.cp[i][i + 1] IN
      \/ d = Len(g.kn[i]) /\ d < Len(g.kn[i + 1])
      \/ d < Len(g.kn[i]) /\ d < Len(g.kn[i + 1]) /\ g.kn[i][d + 1] < g.kn[i + 1][d + 1]

NoContent(g) == [k \in 1..g.n |-> 0]
Keys(c) == {k \in DOMAIN c : c[k] # 0}
Items(c) == [i \in 1..Cardinality(Keys(c)) |->
               LET k == CHOOSE x \in Keys(c) : Cardinality({y \in Keys(c) : y <= x}) = i IN <<k, c[k]>>]
Look(c, k) == IF c[k] = 0 THEN None ELSE c[k]

----------------------------------------------------------------------------
(* RLP.  An encoding is [n |-> length in bytes, s |-> tokens].               *)
Cat(a, b) == [n |-> a.n + b.n, s |-> a.s \o b.s]
Bytes(s) == [n |-> Len(s), s |-> s]
Head0(base, n) == IF n <= 55 THEN <<base + n>>
                  ELSE IF n < 256 THEN <<base + 56, n>>
                  ELSE IF n < 65536 THEN <<base + 57, n \div 256, n % 256>>
                  ELSE <<base + 58, n \div 65536, (n \div 256) % 256, n % 256>>
Str(e) == IF e.n = 1 /\ e.s[1] >= 0 /\ e.s[1] < 128 THEN e ELSE Cat(Bytes(Head0(128, e.n)), e)
List(e) == Cat(Bytes(Head0(192, e.n)), e)
EmptyStr == Bytes(<<128>>)

(* hex-prefix encoding of a nibble sequence                                  *)
Compact(nib, leaf) ==
  LET flag == IF leaf THEN 32 ELSE 0
      odd == Len(nib) % 2
      head == IF odd = 1 THEN flag + 16 + nib[1] ELSE flag
  IN Bytes(<<head>> \o [i \in 1..(Len(nib) \div 2) |-> 16 * nib[2 * i - 1 + odd] + nib[2 * i + odd]])

----------------------------------------------------------------------------
(* Node(g, ids, c, K, d): the node for the keys K, all sharing d nibbles.    *)
(*  t "E" empty, "L" leaf, "X" extension, "B" branch                         *)
(*  rep some key below it                                                    *)
(*  d depth of the node, nd depth below its own nibbles                      *)
(*  n, s its encoding; id of its hash, 0 if it is shorter than a hash        *)
(*  under the ids of the stored nodes below it                               *)
(* ids maps the encoding of every known stored node to its id.  With         *)
(* g.sym they are made up from the position, for use without a trace.    *)
IdOf(ids, g, c, K, d, s) ==
  IF g.sym THEN 1 + d * (g.n + 1) + Min(K)
  ELSE IF s \in DOMAIN ids THEN ids[s] ELSE 999999
Value(g, v) == [n |-> g.vals[v].n, s |-> g.vals[v].b]
Ref(x) == IF x.id # 0 THEN [n |-> HASH + 1, s |-> <<160, -x.id>>] ELSE [n |-> x.n, s |-> x.s]
EmptyNode == [t |-> "E", rep |-> 0, d |-> 0, nd |-> 0, n |-> 1, s |-> <<128>>, id |-> 0, under |-> {}, ch |-> <<>>]
Self(x) == IF x.id # 0 THEN {x.id} ELSE {}

RECURSIVE CatAll(_, _)
CatAll(es, i) == IF i > Len(es) THEN Bytes(<<>>) ELSE Cat(es[i], CatAll(es, i + 1))

RECURSIVE Node(_, _, _, _, _)
Node(g, ids, c, K, d) ==
  IF K = {} THEN EmptyNode
  ELSE LET lo == Min(K)
           nib == g.kn[lo]
           mk(t, nd, e, under, ch) ==
             LET x == TLCEval(e) IN
             [t |-> t, rep |-> lo, d |-> d, nd |-> nd, n |-> x.n, s |-> x.s, ch |-> ch, under |-> under,
              id |-> IF x.n < HASH THEN 0 ELSE IdOf(ids, g, c, K, d, x.s)]
       IN IF Cardinality(K) = 1
          THEN mk("L", Len(nib),
                  List(Cat(Str(Compact(SubSeq(nib, d + 1, Len(nib)), TRUE)), Str(Value(g, c[lo])))), {}, <<>>)
          ELSE LET p == g.cp[lo][Max(K)]
               IN IF p > d
                  THEN LET b == TLCEval(Node(g, ids, c, K, p)) IN
                       mk("X", p, List(Cat(Str(Compact(SubSeq(nib, d + 1, p), FALSE)), Ref(b))),
                          b.under \cup Self(b), <<b>>)
                  ELSE LET here == {k \in K : Len(g.kn[k]) = d}
                           ch == TLCEval([i \in 1..16 |->
                                    Node(g, ids, c, {k \in K \ here : g.kn[k][d + 1] = i - 1}, d + 1)])
                           v == IF here = {} THEN EmptyStr ELSE Str(Value(g, c[CHOOSE k \in here : TRUE]))
                       IN mk("B", d, List(Cat(CatAll([i \in 1..16 |-> Ref(ch[i])], 1), v)),
                             UNION {ch[i].under \cup Self(ch[i]) : i \in 1..16}, ch)

(* the root is stored whatever its size                                      *)
Root(g, ids, c) ==
  LET x == TLCEval(Node(g, ids, c, Keys(c), 0)) IN
  [x EXCEPT !.id = IF g.sym THEN 1 ELSE IF x.s \in DOMAIN ids THEN ids[x.s] ELSE 999999]
Stored(r) == r.under \cup {r.id}

(* the stored nodes below x on the way to key k, from the top                *)
RECURSIVE Below(_, _, _)
Below(g, x, k) ==
  LET nib == g.kn[k]
      go(y) == (IF y.id # 0 THEN <<y.id>> ELSE <<>>) \o Below(g, y, k)
  IN CASE x.t \in {"E", "L"} -> <<>>
       [] x.t = "X" -> IF g.cp[x.rep][k] >= x.nd THEN go(x.ch[1]) ELSE <<>>
       [] x.t = "B" -> IF Len(nib) = x.d THEN <<>> ELSE go(x.ch[nib[x.d + 1] + 1])
ProofOf(g, r, k) == <<r.id>> \o Below(g, r, k)
=============================================================================
