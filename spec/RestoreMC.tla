------------------------------ MODULE RestoreMC ------------------------------
(* Restoring a tree from chunks (jmt/src/restore.rs), transcribed: partial   *)
(* nodes, frozen nodes, the range proof check, recovery after a crash and    *)
(* finishing, against a source that sends any chunks with any proofs.        *)
(* Hashes are terms: <<"E">> the empty subtree, <<"L", k, v>> a leaf,        *)
(* <<"N", l, r>> an inner node; equal terms stand for equal hashes.          *)
(* Checked, for every contents: a chunk is accepted exactly if what has been *)
(* received is a beginning of the contents and the proof is the one for its  *)
(* last key; the store only ever holds nodes and values of the true tree,    *)
(* and its root only once finishing succeeds, when everything is there; a    *)
(* refused chunk changes nothing in the store; a restore interrupted         *)
(* anywhere goes on from what it finds; nothing panics (Assert).             *)
EXTENDS JmtCore

CONSTANTS KJ, NV,
          MaxBad,     \* how many bad chunks (with the receiver used on)
          Fault,      \* 0, or a check left out of the algorithm: the invariants must notice
          MaxOps, MaxKeys, Out

VARIABLES con,        \* the contents of the version being restored
          store,      \* nibble path -> node
          vals,       \* key -> value
          rcv,        \* the receiver
          got,        \* keys and values received: durable ones at opening, then in the order taken in
          bad,        \* bad chunks sent
          fin,        \* finished
          last,       \* [act, res, same] of the last step, for the invariants
          h
vars == <<con, store, vals, rcv, got, bad, fin, last, h>>
view == <<con, store, vals, rcv, got, bad, fin, last>>

G == Geometry(KJ)
NK == G.n
L == G.len
Nib(k, d) == KJ[k][d + 1]
Path(k, d) == SubSeq(KJ[k], 1, d)
Pow(i) == <<8, 4, 2, 1>>[i + 1]
Bit(k, b) == (KJ[k][(b \div 4) + 1] \div Pow(b % 4)) % 2

E == <<"E">>
Unk == <<"?">>
LeafT(k, v) == <<"L", k, v>>
Leaf(k, v) == [t |-> "L", k |-> k, v |-> v]
Sub(x, n) == [t |-> "I", h |-> x, n |-> n]

----------------------------------------------------------------------------
(* hashes of (parts of) sixteen children                                     *)
ChildHash(x) == IF x.t = "L" THEN LeafT(x.k, x.v)
                ELSE IF Assert(x.h # Unk, "the hash must be known") THEN x.h ELSE Unk
RECURSIVE Part16(_, _, _)
Part16(ch, s, w) ==
  LET in == {n \in DOMAIN ch : s <= n /\ n < s + w} IN
  IF in = {} THEN E
  ELSE IF w = 1 THEN ChildHash(ch[s])
  ELSE IF Cardinality(in) = 1 /\ ch[Min(in)].t = "L" THEN ChildHash(ch[Min(in)])
  ELSE <<"N", Part16(ch, s, w \div 2), Part16(ch, s + w \div 2, w \div 2)>>
NodeHash(ch) == Part16(ch, 0, 16)
NodeCount(ch) == FoldFunction(LAMBDA x, a : (IF x.t = "L" THEN 1 ELSE x.n) + a, 0, ch)

----------------------------------------------------------------------------
(* the definition: the tree of the contents                                  *)
RECURSIVE Term(_, _)
Term(D, b) ==
  IF D = {} THEN E
  ELSE IF Cardinality(D) = 1 THEN LET k == CHOOSE x \in D : TRUE IN LeafT(k, con[k])
  ELSE <<"N", Term({k \in D : Bit(k, b) = 0}, b + 1), Term({k \in D : Bit(k, b) = 1}, b + 1)>>
Root == Term(DOMAIN con, 0)
RECURSIVE Right(_, _, _)  \* the siblings right of k's path, bottom up
Right(D, b, k) ==
  IF Cardinality(D) <= 1 THEN <<>>
  ELSE LET r == TLCEval(Right({x \in D : Bit(x, b) = Bit(k, b)}, b + 1, k))
       IN IF Bit(k, b) = 1 THEN r ELSE Append(r, Term({x \in D : Bit(x, b) = 1}, b + 1))
Proof(k) == Right(DOMAIN con, 0, k)
CanonNode(D, p) ==
  LET n == Len(p)
      F(i) == {k \in D : Nib(k, n) = i}
      nibs == {Nib(k, n) : k \in D}
  IN IF Cardinality(D) = 1 THEN LET k == CHOOSE x \in D : TRUE IN Leaf(k, con[k])
     ELSE [t |-> "I", ch |-> [i \in nibs |->
             IF Cardinality(F(i)) = 1 THEN LET k == CHOOSE x \in F(i) : TRUE IN Leaf(k, con[k])
             ELSE Sub(Term(F(i), 4 * (n + 1)), Cardinality(F(i)))]]
Canon ==
  LET D == DOMAIN con
      ps == UNION {{Path(k, n) : n \in 0..LeafDepth(G, D, k)} : k \in D}
  IN [p \in ps |-> CanonNode({k \in D : Path(k, Len(p)) = p}, p)]

----------------------------------------------------------------------------
(* the receiver: part, the partial nodes [p path, ch children]; fr and fv,   *)
(* frozen nodes and values not yet stored; prev, pv, the last key and its    *)
(* value; some, whether it has received a key since it was opened            *)
Fresh == [part |-> <<[p |-> <<>>, ch |-> <<>>]>>, fr |-> <<>>, fv |-> <<>>, prev |-> 0, pv |-> 0, some |-> FALSE]
Closed == [part |-> <<>>]
IsOpen == rcv.part # <<>>
SetChild(r, i, n, x) == [r EXCEPT !.part[i].ch = (n :> x) @@ @]
SingleLeaf(ch) == Cardinality(DOMAIN ch) = 1 /\ ch[CHOOSE n \in DOMAIN ch : TRUE].t = "L"

FreezeLeaf(r) ==
  IF ~ r.some THEN r
  ELSE LET x == r.part[Len(r.part)]
           m == Max(DOMAIN x.ch)
       IN IF Assert(x.ch[m].t = "L", "rightmost child must be a leaf")
          THEN [r EXCEPT !.fr = (Append(x.p, m) :> x.ch[m]) @@ @] ELSE r
RECURSIVE FreezeInner(_, _)
FreezeInner(r, keep) ==
  IF Len(r.part) <= keep THEN r
  ELSE IF ~ Assert(~ SingleLeaf(r.part[Len(r.part)].ch), "no internal node has a leaf as its only child") THEN r
  ELSE LET x == r.part[Len(r.part)]
           r1 == [r EXCEPT !.part = SubSeq(@, 1, Len(@) - 1), !.fr = (x.p :> [t |-> "I", ch |-> x.ch]) @@ @]
           up == r1.part[Len(r1.part)]
           m == Max(DOMAIN up.ch)
       IN IF r1.part = <<>> THEN r1
          ELSE IF Assert(up.ch[m].t = "I" /\ up.ch[m].h = Unk, "rightmost child must be the unfinished node")
          THEN FreezeInner(TLCEval(SetChild(r1, Len(r1.part), m, Sub(NodeHash(x.ch), NodeCount(x.ch)))), keep)
          ELSE r1
(* [ok, r] *)
Freeze(r, keep) ==
  IF Fault # 1 /\ r.part # <<>> /\ Len(r.part) > keep /\ SingleLeaf(r.part[Len(r.part)].ch) THEN [ok |-> FALSE, r |-> r]
  ELSE [ok |-> TRUE, r |-> FreezeInner(TLCEval(FreezeLeaf(r)), keep)]

RECURSIVE Deepen(_, _, _, _)
Deepen(r, k, d, m) ==  \* partial nodes with one unfinished child for the depths d..m-1 on the path of k
  IF d >= m THEN r
  ELSE Deepen(TLCEval([r EXCEPT !.part = Append(@, [p |-> Path(k, d), ch |-> (Nib(k, d) :> Sub(Unk, 0))])]), k, d + 1, m)
InsertAtLeaf(r, n, x, k, v) ==
  LET i == Len(r.part)
      m == G.cpn[x.k][k]
      r1 == TLCEval(Deepen(SetChild(r, i, n, Sub(Unk, 0)), k, i, m))
      r2 == TLCEval([r1 EXCEPT !.part = Append(@, [p |-> Path(k, m), ch |-> (Nib(x.k, m) :> x)])])
      f == TLCEval(Freeze(r2, Len(r2.part)))
  IN IF Assert(f.ok /\ Nib(k, m) > Nib(x.k, m), "new leaf must be on the right")
     THEN SetChild(f.r, Len(f.r.part), Nib(k, m), Leaf(k, v)) ELSE r
RECURSIVE AddAt(_, _, _, _)
AddAt(r, k, v, i) ==
  IF i >= L THEN [ok |-> Assert(FALSE, "ran off the key"), r |-> r]
  ELSE IF i + 1 > Len(r.part) THEN [ok |-> FALSE, r |-> r]
  ELSE LET n == Nib(k, i)
           ch == r.part[i + 1].ch
       IN IF n \notin DOMAIN ch
          THEN LET f == TLCEval(Freeze(r, i + 1))
               IN IF f.ok THEN [ok |-> TRUE, r |-> SetChild(f.r, i + 1, n, Leaf(k, v))] ELSE f
          ELSE IF ch[n].t = "L"
          THEN IF Assert(i + 1 = Len(r.part), "a leaf has no partial nodes below")
               THEN [ok |-> TRUE, r |-> InsertAtLeaf(r, n, ch[n], k, v)] ELSE [ok |-> FALSE, r |-> r]
          ELSE AddAt(r, k, v, i + 1)

----------------------------------------------------------------------------
(* verify                                                                    *)
LeftAt(r, i) ==
  IF i >= 4 * Len(r.part) THEN E
  ELSE LET w == 2 ^ (3 - (i % 4))
           n == Nib(r.prev, i \div 4)
       IN Part16(r.part[(i \div 4) + 1].ch, (n \div w) * w - w, w)
RECURSIVE Trim(_, _, _, _, _)   \* [left, b]: drop empty left siblings at the bottom
Trim(k, left, vis, b, nproof) ==
  IF b < 0 THEN left
  ELSE IF Bit(k, b) = 1
  THEN IF left[Len(left)] = E THEN Trim(k, SubSeq(left, 1, Len(left) - 1), vis, b - 1, nproof) ELSE left
  ELSE IF vis > nproof THEN Trim(k, left, vis - 1, b - 1, nproof) ELSE left
RECURSIVE FoldUp(_, _, _, _, _)
FoldUp(k, cur, b, left, right) ==   \* left: top down, right: bottom up; <<>>: a sibling is missing
  IF b < 0 THEN cur
  ELSE IF Bit(k, b) = 1
  THEN IF left = <<>> THEN <<>>
       ELSE FoldUp(k, <<"N", left[Len(left)], cur>>, b - 1, SubSeq(left, 1, Len(left) - 1), right)
  ELSE IF right = <<>> THEN <<>>
       ELSE FoldUp(k, <<"N", cur, right[1]>>, b - 1, left, Tail(right))
Verify(r, sibs) ==
  LET k == r.prev
      bits == [i \in 1..(4 * L) |-> i - 1]
      ones == SelectSeq(bits, LAMBDA b : Bit(k, b) = 1)
      left0 == TLCEval([j \in 1..Len(ones) |-> LeftAt(r, ones[j])])
      zeros == 4 * L - Len(ones)
      left == TLCEval(Trim(k, left0, zeros, 4 * L - 1, Len(sibs)))
      n == Len(left) + Len(sibs)
  IN /\ zeros >= Len(sibs)
     /\ Fault = 3 \/ FoldUp(k, LeafT(k, r.pv), n - 1, left, sibs) = Root

(* add_chunk: [ok, r, n]: n items were taken in                              *)
RECURSIVE AddAll(_, _, _)
AddAll(r, items, n) ==
  IF n = Len(items) THEN [ok |-> TRUE, r |-> r, n |-> n]
  ELSE LET k == items[n + 1][1]
           v == items[n + 1][2]
       IN IF r.prev # 0 /\ k <= r.prev THEN [ok |-> FALSE, r |-> r, n |-> n]
          ELSE LET a == TLCEval(AddAt(r, k, v, 0))
               IN IF ~ a.ok THEN [ok |-> FALSE, r |-> a.r, n |-> n]
                  ELSE AddAll(TLCEval([a.r EXCEPT !.fv = (k :> v) @@ @, !.prev = k, !.pv = v, !.some = TRUE]), items, n + 1)
Add(r, items, sibs) ==
  IF items = <<>> THEN [ok |-> FALSE, r |-> r, n |-> 0]
  ELSE LET a == TLCEval(AddAll(r, items, 0))
       IN IF ~ a.ok THEN a ELSE [a EXCEPT !.ok = Verify(a.r, sibs)]

----------------------------------------------------------------------------
(* recovery: the ancestors of the rightmost leaf that are not stored         *)
LeafPaths == {p \in DOMAIN store : store[p].t = "L"}
RightmostPath == CHOOSE p \in LeafPaths : \A q \in LeafPaths : store[q].k <= store[p].k
AsChild(p) == IF store[p].t = "L" THEN store[p] ELSE Sub(NodeHash(store[p].ch), NodeCount(store[p].ch))
RecoverNodes(rp) ==
  LET ds == {d \in 0..(Len(rp) - 1) : SubSeq(rp, 1, d) \notin DOMAIN store}
      low == Max(ds)
      Kids(d) == LET p == SubSeq(rp, 1, d)
                     have == {n \in 0..(IF d = low THEN 15 ELSE rp[d + 1] - 1) : Append(p, n) \in DOMAIN store}
                 IN (IF d = low THEN <<>> ELSE (rp[d + 1] :> Sub(Unk, 0))) @@ [n \in have |-> AsChild(Append(p, n))]
  IN [d \in 1..(low + 1) |-> [p |-> SubSeq(rp, 1, d - 1), ch |-> TLCEval(Kids(d - 1))]]
(* [ok, r] *)
Recover ==
  IF LeafPaths = {} THEN [ok |-> TRUE, r |-> Fresh]
  ELSE LET rp == RightmostPath
       IN IF rp = <<>> \/ <<>> \in DOMAIN store THEN [ok |-> FALSE, r |-> Fresh]
          ELSE [ok |-> TRUE, r |-> [Fresh EXCEPT !.part = RecoverNodes(rp), !.prev = store[rp].k, !.pv = store[rp].v]]

----------------------------------------------------------------------------
(* finish: [ok, r]                                                           *)
Done(r) ==
  IF r.prev = 0 THEN [ok |-> FALSE, r |-> r]
  ELSE IF Len(r.part) = 1 /\ SingleLeaf(r.part[1].ch)
  THEN LET x == r.part[1].ch[CHOOSE n \in DOMAIN r.part[1].ch : TRUE]
       IN [ok |-> Fault = 2 \/ LeafT(x.k, x.v) = Root, r |-> [r EXCEPT !.fr = (<<>> :> x) @@ @]]
  ELSE LET f == TLCEval(Freeze(r, 0))
       IN [ok |-> f.ok /\ <<>> \in DOMAIN f.r.fr /\ (Fault = 2 \/ NodeHash(f.r.fr[<<>>].ch) = Root), r |-> f.r]

----------------------------------------------------------------------------
Contents == {f \in [1..NK -> 0..NV] : \E k \in 1..NK : f[k] # 0}
Init == /\ \E f \in Contents : con = [k \in {x \in 1..NK : f[x] # 0} |-> f[k]]
        /\ store = <<>> /\ vals = <<>> /\ rcv = Closed /\ got = <<>> /\ bad = 0 /\ fin = FALSE
        /\ last = [act |-> "init", res |-> TRUE, due |-> TRUE]
        /\ h = <<>>
Sorted2(f) == LET s == Sorted(DOMAIN f) IN [i \in 1..Len(s) |-> <<s[i], f[s[i]]>>]
(* the pairs up to key k *)
Upto(k) == LET s == Sorted({x \in DOMAIN con : x <= k}) IN [i \in 1..Len(s) |-> <<s[i], con[s[i]]>>]
AsSeq == Sorted2(con)
Prefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

Open(over) ==
  /\ ~ IsOpen
  /\ \E o \in {IF over THEN [ok |-> TRUE, r |-> Fresh] ELSE Recover} :
       /\ IF o.ok THEN rcv' = o.r /\ got' = Upto(o.r.prev) ELSE UNCHANGED <<rcv, got>>
       /\ last' = [act |-> "open", res |-> o.ok, due |-> over \/ ~ fin]
       /\ h' = Append(h, IF over THEN 2 ELSE 1)
  /\ (over => ~ fin)
  /\ UNCHANGED <<con, store, vals, bad, fin>>
Crash == /\ IsOpen /\ rcv' = Closed /\ got' = <<>>
         /\ last' = [act |-> "crash", res |-> TRUE, due |-> TRUE]
         /\ h' = Append(h, 3)
         /\ UNCHANGED <<con, store, vals, bad, fin>>
(* due: whether the chunk has to be accepted                                 *)
Chunk(items, sibs, refuse, code) ==
  \E a \in {TLCEval(Add(rcv, items, sibs))} :
    LET g == got \o SubSeq(items, 1, a.n)
        due == a.n = Len(items) /\ items # <<>> /\ Prefix(g, AsSeq) /\ sibs = Proof(items[Len(items)][1])
        ok == a.ok /\ ~ refuse
    IN /\ rcv' = IF ok THEN [a.r EXCEPT !.fr = <<>>, !.fv = <<>>] ELSE a.r
       /\ got' = g
       /\ IF ok THEN store' = a.r.fr @@ store /\ vals' = a.r.fv @@ vals ELSE UNCHANGED <<store, vals>>
       /\ last' = [act |-> "chunk", res |-> a.ok, due |-> due]
       /\ h' = Append(h, code)
       /\ UNCHANGED <<con, fin>>
Good(m, refuse) ==
  /\ IsOpen
  /\ LET rest == SelectSeq(AsSeq, LAMBDA x : x[1] > rcv.prev)
         items == SubSeq(rest, 1, m)
     IN /\ m <= Len(rest)
        /\ Chunk(items, Proof(items[m][1]), refuse, m + IF refuse THEN 30 ELSE 10)
  /\ UNCHANGED bad
Pairs == {<<k, v>> : k \in 1..NK, v \in 1..NV}
ItemSeqs == {<<>>} \cup {<<x>> : x \in Pairs} \cup {<<x, y>> : x, y \in Pairs}
Siblings ==
  LET hon == {Proof(k) : k \in DOMAIN con}
      sub == {E} \cup UNION {{s[i] : i \in 1..Len(s)} : s \in hon}
      alt(s) == {RemoveAt(s, i) : i \in 1..Len(s)}
                \cup {InsertAt(s, i, x) : i \in 1..(Len(s) + 1), x \in {E} \cup (IF s = <<>> THEN {} ELSE {s[1]})}
                \cup {[s EXCEPT ![i] = x] : i \in 1..Len(s), x \in sub}
  IN hon \cup UNION {alt(s) : s \in hon}
Bad ==
  /\ IsOpen /\ bad < MaxBad /\ ~ fin
  /\ bad' = bad + 1
  /\ \E items \in ItemSeqs, sibs \in Siblings : Chunk(items, sibs, FALSE, 50)
Finish(refuse) ==
  /\ IsOpen
  /\ \E f \in {TLCEval(Done(rcv))} :
       /\ last' = [act |-> "finish", res |-> f.ok, due |-> got = AsSeq]
       /\ IF f.ok /\ ~ refuse
          THEN store' = f.r.fr @@ store /\ vals' = f.r.fv @@ vals /\ fin' = TRUE
          ELSE UNCHANGED <<store, vals, fin>>
  /\ rcv' = Closed /\ got' = <<>>
  /\ h' = Append(h, IF refuse THEN 5 ELSE 4)
  /\ UNCHANGED <<con, bad>>
Next == \/ Open(FALSE) \/ Open(TRUE) \/ Crash
        \/ \E m \in 1..NK, refuse \in BOOLEAN : Good(m, refuse)
        \/ \E refuse \in BOOLEAN : Finish(refuse)
        \/ Bad
Spec == Init /\ [][Next]_vars
Bounded == Len(h) < MaxOps

----------------------------------------------------------------------------
(* accepted exactly if due; opening an unfinished restore works; finishing   *)
(* works exactly once everything has been received                           *)
Exactly == last.res = last.due
OnlyTrueNodes == LET t == Canon IN \A p \in DOMAIN store : p \in DOMAIN t /\ store[p] = t[p]
OnlyTrueValues == \A k \in DOMAIN vals : k \in DOMAIN con /\ vals[k] = con[k]
Complete == fin => store = Canon /\ vals = con
NoEarlyRoot == (<<>> \in DOMAIN store) => store = Canon /\ vals = con
(* every stored leaf's value is stored                                       *)
ValuesFirst == \A p \in LeafPaths : store[p].k \in DOMAIN vals
Export == ~ Out \/ PrintT(<<"H", [k \in 1..NK |-> IF k \in DOMAIN con THEN con[k] ELSE 0], h>>)
=============================================================================
