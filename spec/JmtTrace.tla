------------------------------ MODULE JmtTrace ------------------------------
(* Validates recorded histories of the versioned tree.  One trace line per   *)
(* public call.  The abstract state is the content of every version; it only *)
(* depends on the writes, never on what the implementation answered, so      *)
(* every answer is judged against the specification.                         *)
EXTENDS JmtCore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES
  l,       \* next trace line
  g,       \* key universe
  cs,      \* version -> content (committed versions)
  first, latest, pruned,
  pend,    \* update that has been computed: [first, contents, touched] or empty
  hm,      \* what each hash id stands for: hm[id + 1] is a symbol, or <<>>
  hs,      \* the symbols that have a hash id
  st,      \* node store (only when updates are recorded)
  staled,  \* node keys retired so far
  its,     \* open iterators: id -> remaining items
  hist,    \* key -> version history
  rs       \* what an open restore may have received
vars == <<l, g, cs, first, latest, pruned, pend, hm, hs, st, staled, its, hist, rs>>

E == Trace[l]
Chk(name, b) == IF b THEN TRUE ELSE PrintT(<<"FAILED", l, name>>) /\ FALSE

Init == /\ l = 1 /\ g = Geometry(<<>>) /\ cs = <<>> /\ first = 0 /\ latest = -1 /\ pruned = 0
        /\ pend = <<>> /\ hm = <<Empty>> /\ hs = {Empty} /\ st = <<>> /\ staled = {} /\ its = <<>> /\ hist = <<>> /\ rs = {}

Same(vs) == UNCHANGED vs
Obs == UNCHANGED <<g, cs, first, latest, pruned, pend, st, staled, its, hist, rs>>
ObsAll == Obs /\ UNCHANGED <<hm, hs>>
(* S: a set of <<hash id, symbol>>; ids and symbols must determine each other *)
BindResult(S) ==
  LET Known(h) == h < Len(hm) /\ hm[h + 1] # <<>>
      old == {p \in S : Known(p[1])}
      new == S \ old
      top == IF new = {} THEN Len(hm) ELSE Max({Len(hm)} \cup {p[1] + 1 : p \in new})
      good == /\ \A p \in old : hm[p[1] + 1] = p[2]
              /\ OneToOne(new)
              /\ \A p \in new : p[2] \notin hs
  IN [ok |-> Chk("hash identity", good),
      hm |-> [i \in 1..top |-> IF i <= Len(hm) /\ hm[i] # <<>> THEN hm[i]
                                ELSE LET q == {p \in new : p[1] + 1 = i}
                                     IN IF q = {} THEN <<>> ELSE (CHOOSE p \in q : TRUE)[2]],
      hs |-> hs \cup {p[2] : p \in new}]
Bind(S) == \E r \in {BindResult(S)} : r.ok /\ hm' = r.hm /\ hs' = r.hs

Reset ==
  /\ g' = Geometry(E.keys) /\ Chk("key order", GeometryOk(g'))
  /\ cs' = <<>> /\ first' = E.first /\ latest' = E.first - 1 /\ pruned' = E.first
  /\ pend' = <<>> /\ hm' = <<Empty>> /\ hs' = {Empty} /\ st' = <<>> /\ staled' = {} /\ its' = <<>> /\ hist' = <<>> /\ rs' = {}

Base(v) == IF v \in DOMAIN cs THEN cs[v] ELSE <<>>
RECURSIVE Contents(_, _)
Contents(c, sets) == IF sets = <<>> THEN <<>>
                     ELSE LET d == ApplySet(c, sets[1]) IN <<d>> \o Contents(d, Tail(sets))
RECURSIVE TouchedSeq(_, _)
TouchedSeq(c, sets) == IF sets = <<>> THEN <<>>
                       ELSE <<Touched(c, sets[1])>> \o TouchedSeq(ApplySet(c, sets[1]), Tail(sets))

Commit ==
  /\ Chk("update computed", E.res = "ok")
  /\ Chk("update at a known version", E.first \in first..(latest + 1))
  /\ pend' = [first |-> E.first, sets |-> E.sets, cs |-> Contents(Base(E.first - 1), E.sets),
              touched |-> TouchedSeq(Base(E.first - 1), E.sets)]
  /\ UNCHANGED <<g, cs, first, latest, pruned, hm, hs, st, staled, its, hist, rs>>

LastIn(s, k) == LET i == Max({j \in 1..Len(s) : s[j][1] = k}) IN s[i][2]
Written(s) == {s[j][1] : j \in 1..Len(s)}
RECURSIVE AddHist(_, _, _)
AddHist(h, v, sets) ==
  IF sets = <<>> THEN h
  ELSE LET W == Written(sets[1])
           h2 == [k \in DOMAIN h \cup W |->
                    (IF k \in DOMAIN h THEN h[k] ELSE <<>>)
                    \o (IF k \in W THEN <<<<v, LastIn(sets[1], k)>>>> ELSE <<>>)]
       IN AddHist(h2, v + 1, Tail(sets))

Stored ==
  /\ Chk("update stored", E.res = "ok")
  /\ cs' = [v \in DOMAIN cs \cup (pend.first..(pend.first + Len(pend.cs) - 1)) |->
              IF v < pend.first THEN cs[v] ELSE pend.cs[v - pend.first + 1]]
  /\ latest' = pend.first + Len(pend.cs) - 1
  /\ hist' = AddHist(hist, pend.first, pend.sets)
  /\ UNCHANGED <<g, first, pruned, pend, hm, hs, st, staled, its, rs>>

Roots ==   \* announced by the update computed last
  /\ Chk("one root per version", Len(E.roots) = Len(pend.cs))
  /\ Bind({<<E.roots[i], RootSym(pend.cs[i])>> : i \in 1..Len(E.roots)})
  /\ Obs

Gone(v) == v < pruned   \* reads may fail there

Root ==
  /\ Chk("root of a committed version",
         E.root >= 0 \/ (Gone(E.v) /\ E.root = Err))
  /\ Chk("optional root", E.opt >= 0 \/ (Gone(E.v) /\ E.opt = None))
  /\ Bind({<<h, RootSym(cs[E.v])>> : h \in {x \in {E.root, E.opt} : x >= 0}})
  /\ Obs

Rebuild == /\ Chk("rebuild", E.root >= 0) /\ Bind({<<E.root, RootSym(cs[E.v])>>}) /\ Obs

May(v, got, want) == got = want \/ (Gone(v) /\ got = Err)
Read ==
  LET want == ValueOf(cs[E.v], E.k) IN
  /\ Chk("get", E.get = want)
  /\ Chk("contains", E.has = (IF want = None THEN 0 ELSE 1))
  /\ Chk("get_with_proof", May(E.v, E.gwp, want))
  /\ Chk("store get", E.db = want)
  /\ ObsAll

(* reads of a thread racing with the commit of versions above E.lo *)
TRead ==
  LET want == ValueOf(cs[E.v], E.k)
      older == {ValueOf(Base(u), E.k) : u \in (E.lo)..(E.v)}
  IN
  /\ Chk("threaded get", E.get = want \/ (E.v > E.lo /\ E.get \in older))
  /\ Chk("threaded get_with_proof", E.gwp = want \/ (E.v > E.lo /\ E.gwp = Err))
  /\ ObsAll
TIter ==
  /\ Chk("threaded iteration", \/ E.st = "end" /\ E.out = PairsFrom(cs[E.v], 0)
                               \/ E.v > E.lo /\ E.st = "err")
  /\ ObsAll

Expected(v, mode, start) ==
  IF mode = "key" THEN PairsFrom(cs[v], IF start = -1 THEN g.n + 1 ELSE start)
  ELSE DropFirst(PairsFrom(cs[v], 0), start)
(* key id -1 stands for the greatest possible key: it may itself be present *)
TopPresent(v, mode, start) ==
  mode = "key" /\ start = -1 /\ g.n \in DOMAIN cs[v] /\ \A i \in 1..g.len : g.kn[g.n][i] = 15
ExpectedSet(v, mode, start) ==
  {Expected(v, mode, start)}
    \cup (IF TopPresent(v, mode, start) THEN {<<<<g.n, cs[v][g.n]>>>>} ELSE {})
PrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Iter ==
  /\ Chk("iteration", \/ E.st = "end" /\ E.out \in ExpectedSet(E.v, E.mode, E.start)
                      \/ Gone(E.v) /\ E.st = "err" /\ \E x \in ExpectedSet(E.v, E.mode, E.start) : PrefixOf(E.out, x))
  /\ ObsAll

IOpen == /\ Chk("iterator opened", E.it > 0)
         /\ its' = (E.it :> IF TopPresent(E.v, E.mode, E.start) THEN <<<<0, 0>>>> ELSE Expected(E.v, E.mode, E.start)) @@ its
         /\ UNCHANGED <<g, cs, first, latest, pruned, pend, hm, hs, st, staled, hist, rs>>
INext ==
  LET r == its[E.it] IN
  IF r = <<<<0, 0>>>> THEN ObsAll      \* see TopPresent
  ELSE /\ Chk("next of an open iterator", E.out = IF r = <<>> THEN <<>> ELSE r[1])
       /\ its' = [its EXCEPT ![E.it] = IF r = <<>> THEN r ELSE Tail(r)]
       /\ UNCHANGED <<g, cs, first, latest, pruned, pend, hm, hs, st, staled, hist, rs>>

Count == /\ Chk("leaf count", May(E.v, E.cnt, Cardinality(DOMAIN cs[E.v]))) /\ ObsAll

Proof ==
  \E c \in {cs[E.v]} : \E sibs \in {ProofSibs(g, cs[E.v], E.k)} :
     IF E.res # "ok" THEN Chk("proof available", Gone(E.v) /\ E.res = "err") /\ ObsAll
     ELSE /\ Chk("proved value", E.val = ValueOf(c, E.k))
          /\ Chk("proof leaf", E.leaf = ProofLeaf(g, c, E.k))
          /\ Chk("proof length", Len(E.sibs) = Len(sibs))
          /\ Bind({<<E.sibs[i], sibs[i]>> : i \in 1..Len(sibs)}
                  \cup (IF E.rr = None THEN {} ELSE {<<E.rr, RootSym(c)>>}))
          /\ Chk("proof verifies", \A i \in 1..Len(E.ver) : E.ver[i] = "ok")
          /\ Obs

(* a claim "key k has value val (None: is absent)" presented with some proof *)
Claim ==
  /\ Chk("claim does not crash", E.res \in {"ok", "err"})
  /\ Chk("accepted claim is true", E.res = "ok" => ValueOf(cs[E.v], E.k) = E.val)
  /\ Chk("honest proof accepted", E.honest = 1 => E.res = "ok")
  /\ ObsAll

NoVer ==
  /\ Chk("get_with_proof of a missing version", E.gwp = Err)
  /\ Chk("iteration of a missing version", E.iter = Err /\ E.idx = Err)
  /\ Chk("root of a missing version", E.root = Err /\ E.opt = None)
  /\ Chk("leaf count of a missing version", E.cnt = Err)
  /\ Chk("exclusion proof of a missing version", E.excl = Err)
  /\ ObsAll

----------------------------------------------------------------------------
(* structure and accounting of an update batch *)
NK(x) == <<x.v, x.n, x.k>>
(* (values of a LET in an action are evaluated at every use; in an expression, once) *)
UpdResult ==
  LET F == pend.first
      L == F + Len(pend.cs) - 1
      nodes == E.nodes
      new == TLCEval({NK(nodes[i]) : i \in 1..Len(nodes)})
      rec(nk) == LET i == CHOOSE j \in 1..Len(nodes) : NK(nodes[j]) = nk IN nodes[i]
      s2 == TLCEval([nk \in DOMAIN st \cup new |-> IF nk \in DOMAIN st THEN st[nk] ELSE rec(nk)])
      c(v) == IF v < F THEN Base(v) ELSE pend.cs[v - F + 1]
      root(v) == <<v, 0, 1>>
      all(v) == DOMAIN c(v)
      reach == TLCEval([v \in {w \in (F - 1)..L : w >= first} |-> Reach(s2, root(v), g.len)])
      before(v) == IF v \in DOMAIN reach THEN reach[v] ELSE {}
      sk(x) == <<x[2], x[3], x[4]>>
      stale == TLCEval({E.stale[i] : i \in 1..Len(E.stale)})
      newAt(v) == {nk \in new : nk[1] = v}
      staleAt(v) == {sk(x) : x \in {y \in stale : y[1] = v}}
      isLeaf(nk) == s2[nk].t = "L"
      touched(v) == pend.touched[v - F + 1]
      (* subtree <<n, k>> of version v was there, with the same keys and values, in v - 1 *)
      keeps(v, n, k) == LET A == Under(g, all(v), n, k)
                            B == Under(g, all(v - 1), n, k)
                        IN A = B /\ \A x \in A : c(v)[x] = c(v - 1)[x]
      deleted(v) == {k \in touched(v) : \E i \in 1..Len(pend.sets[v - F + 1]) :
                        pend.sets[v - F + 1][i] = <<k, None>>}
      (* nothing written below the node, and for a leaf nothing removed next to it *)
      mustShare(v, nk) ==
        /\ Under(g, touched(v), nk[2], nk[3]) = {}
        /\ nk[2] > 0
        /\ keeps(v, nk[2], nk[3])
        /\ isLeaf(nk) => /\ Under(g, deleted(v), nk[2] - 1, nk[3]) = {}
                         /\ \E nk2 \in before(v - 1) : nk2[2] = nk[2] /\ nk2[3] = nk[3]
  IN [ok |->
      /\ Chk("nodes are new", new \cap DOMAIN st = {} /\ Cardinality(new) = Len(nodes))
      /\ Chk("nodes belong to the update", \A nk \in new : nk[1] \in F..L /\ nk[3] > 0)
      /\ Chk("well-formed tree", \A v \in F..L : WellFormed(g, s2, c(v), reach[v]))
      /\ Chk("written nodes are reachable", \A v \in F..L : newAt(v) \subseteq reach[v])
      /\ Chk("untouched subtrees are shared",
             \A v \in F..L : v - 1 >= first => \A nk \in newAt(v) : ~mustShare(v, nk))
      /\ Chk("stale entries listed once", Cardinality(stale) = Len(E.stale)
             /\ Cardinality({sk(x) : x \in stale}) = Cardinality(stale) /\ {sk(x) : x \in stale} \cap staled = {})
      /\ Chk("stale nodes were live and are unreachable",
             \A x \in stale : /\ x[1] \in F..L
                              /\ sk(x)[1] < x[1]
                              /\ sk(x) \in DOMAIN s2   \* written, and so live, at an earlier version
                              /\ \A v \in (x[1])..L : sk(x) \notin reach[v])
      /\ Chk("superseded nodes are retired",
             \A v \in F..L : v - 1 >= first =>
                \A nk \in before(v - 1) \ reach[v] : nk[2] > 0 => nk \in staleAt(v))
      /\ Chk("statistics", /\ Len(E.stats) = L - F + 1
             /\ \A v \in F..L : E.stats[v - F + 1] =
                  <<Cardinality(newAt(v)), Cardinality({nk \in newAt(v) : isLeaf(nk)}),
                    Cardinality(staleAt(v)), Cardinality({nk \in staleAt(v) : isLeaf(nk)})>>)
      /\ Chk("values of the update",
             {E.values[i] : i \in 1..Len(E.values)} =
                UNION {{<<v, k, LastIn(pend.sets[v - F + 1], k)>> : k \in Written(pend.sets[v - F + 1])} : v \in F..L}),
      obs |-> UNION {HashObs(g, s2, c(v), reach[v]) : v \in F..L},
      st |-> s2,
      staled |-> staled \cup {sk(x) : x \in stale}]
Upd ==
  \E r \in {UpdResult} :
    /\ r.ok
    /\ Bind(r.obs)
    /\ st' = r.st
    /\ staled' = r.staled
    /\ UNCHANGED <<g, cs, first, latest, pruned, pend, its, hist, rs>>

----------------------------------------------------------------------------
PruneOk ==
  LET d == E.left
      dom == TLCEval({NK(d[i]) : i \in 1..Len(d)})
      store == TLCEval([nk \in dom |-> LET i == CHOOSE j \in 1..Len(d) : NK(d[j]) = nk
                               IN [ch |-> [x \in 1..Len(d[i].ch) |-> <<0, d[i].ch[x][1], d[i].ch[x][2]>>]]])
      live == TLCEval(UNION {Reach(store, <<v, 0, 1>>, g.len) : v \in E.v..latest})
  IN
  /\ Chk("prune succeeds", E.res = "ok")
  /\ Chk("superseded nodes are removed", \A nk \in dom : nk[2] > 0 => nk \in live)
  /\ Chk("retained roots are present", \A v \in E.v..latest : <<v, 0, 1>> \in dom)
  /\ Chk("node count", E.num = Cardinality(dom))
Prune ==
  /\ PruneOk = TRUE
  /\ pruned' = IF E.v > pruned THEN E.v ELSE pruned
  /\ UNCHANGED <<g, cs, first, latest, pend, hm, hs, st, staled, its, hist, rs>>

----------------------------------------------------------------------------
(* bookkeeping of the version store *)
AlivePerHist == {k \in DOMAIN hist : hist[k][Len(hist[k])][2] # None}
Book ==
  LET leafkeys == {E.leaves[i][1] : i \in 1..Len(E.leaves)}
      everLeaf == UNION {DOMAIN cs[v] : v \in DOMAIN cs}
      vs == UNION {{hist[k][i][1] : i \in 1..Len(hist[k])} : k \in DOMAIN hist}
  IN
  /\ Chk("length", E.len = Cardinality(AlivePerHist) /\ E.dblen = E.len)
  /\ Chk("emptiness", E.empty = (IF AlivePerHist = {} THEN 1 ELSE 0))
  /\ Chk("version", vs # {} => E.version = Max(vs))
  /\ Chk("value history", /\ {E.hist[i][1] : i \in 1..Len(E.hist)} = DOMAIN hist
                          /\ Len(E.hist) = Cardinality(DOMAIN hist)
                          /\ \A i \in 1..Len(E.hist) : E.hist[i][2] = hist[E.hist[i][1]])
  /\ Chk("rightmost leaf", IF leafkeys = {} THEN E.right = <<>>
                           ELSE /\ E.right \in {E.leaves[i] : i \in 1..Len(E.leaves)}
                                /\ E.right[1] = Max(leafkeys))
  /\ Chk("leaves stored", pruned = first => leafkeys = everLeaf)
  /\ Chk("node count", E.num[1] = E.num[2])
  /\ ObsAll
(* like a prune, but only the store's own bookkeeping is looked at afterwards *)
Purged == pruned' = first + 1 /\ UNCHANGED <<g, cs, first, latest, pend, hm, hs, st, staled, its, hist, rs>>
HGet == /\ Chk("value at version", E.val = LET H == IF E.k \in DOMAIN hist THEN hist[E.k] ELSE <<>>
                                              I == {i \in 1..Len(H) : H[i][1] <= E.v}
                                          IN IF I = {} THEN None ELSE H[Max(I)][2])
        /\ ObsAll
(* writes past the tree, straight into the store *)
RawVal ==   \* a batch with one value for key k at version v
  LET H == IF E.k \in DOMAIN hist THEN hist[E.k] ELSE <<>>
      last == IF H = <<>> THEN -1000 ELSE H[Len(H)][1]
  IN
  /\ Chk("older write refused", E.v < last <=> E.res # "ok")
  /\ hist' = IF E.v < last THEN hist
             ELSE IF E.v = last THEN [hist EXCEPT ![E.k][Len(H)] = <<E.v, E.val>>]
             ELSE (E.k :> Append(H, <<E.v, E.val>>)) @@ hist
  /\ UNCHANGED <<g, cs, first, latest, pruned, pend, hm, hs, st, staled, its, rs>>
RawNode ==  \* writing a node where there may be one already (had)
  /\ Chk("node never silently replaced",
         (E.had = 1 /\ E.overwrite = 0 /\ E.wrote # E.before) => E.res # "ok")
  /\ Chk("refused leaf is not stored", (E.api = "leaf" /\ E.had = 1) => (E.res # "ok" /\ E.after = E.before))
  /\ Chk("new node accepted", (E.had = 0 \/ (E.overwrite = 1 /\ E.api = "batch")) => (E.res = "ok" /\ E.after = E.wrote))
  /\ ObsAll

----------------------------------------------------------------------------
(* proofs of absence by neighbours *)
Below(c, k) == {x \in DOMAIN c : x < k}
Above(c, k) == {x \in DOMAIN c : x > k}
LeftOf(c, k) == IF Below(c, k) = {} THEN <<>> ELSE <<Max(Below(c, k)), c[Max(Below(c, k))]>>
RightOf(c, k) == IF Above(c, k) = {} THEN <<>> ELSE <<Min(Above(c, k)), c[Min(Above(c, k))]>>
Excl ==
  /\ \E c \in {cs[E.v]} :
       \/ E.res = "skip"
       \/ IF c = <<>> THEN Chk("no neighbours in an empty tree", E.res = "err")
          ELSE IF E.k \in DOMAIN c
          THEN /\ Chk("present key", E.res = "val" /\ E.val = c[E.k])
               /\ Chk("membership proof verifies", E.ver = <<"ok">>)
          ELSE /\ Chk("exclusion proof given", E.res = "excl")
               /\ Chk("nearest smaller key", E.left = LeftOf(c, E.k))
               /\ Chk("nearest larger key", E.right = RightOf(c, E.k))
               /\ Chk("neighbour proofs verify", \A i \in 1..Len(E.ver) : E.ver[i] = "ok")
  /\ ObsAll
Ics ==
  /\ \E c \in {cs[E.v]} :
       IF c = <<>> THEN Chk("no ICS23 proof for an empty tree", E.res = "err")
       ELSE /\ Chk("ICS23 proof given", E.res = "ok" /\ E.val = ValueOf(c, E.k))
            /\ Chk("kind of proof", E.kind = IF E.k \in DOMAIN c THEN "exist" ELSE "nonexist")
            /\ Chk("neighbours", E.k \notin DOMAIN c => E.left = LeftOf(c, E.k) /\ E.right = RightOf(c, E.k))
            /\ Chk("ICS23 verifier accepts", E.ver = "ok")
  /\ ObsAll

----------------------------------------------------------------------------
(* chunked restore of version E.v into an empty store.  rs is the set of     *)
(* contents the open restore object may have received; there is exactly one  *)
(* unless a chunk was rejected.                                              *)
Upto(c, k) == [x \in {y \in DOMAIN c : y <= k} |-> c[x]]
Above0(d, k) == \A x \in DOMAIN d : x < k
RECURSIVE Ordered(_, _)
Ordered(d, items) == items = <<>> \/ (Above0(d, items[1][1]) /\ Ordered((items[1][1] :> items[1][2]) @@ d, Tail(items)))
Added(d, items, n) == [x \in DOMAIN d \cup {items[i][1] : i \in 1..n} |->
                         LET I == {i \in 1..n : items[i][1] = x} IN IF I = {} THEN d[x] ELSE items[Max(I)][2]]
ChunkOk(d, c) == /\ E.items # <<>> /\ E.good = 1
                 /\ Ordered(d, E.items)
                 /\ Added(d, E.items, Len(E.items)) = Upto(c, E.items[Len(E.items)][1])
ROpen ==
  /\ IF E.over = 0 /\ E.root = 1 THEN Chk("a completed store is not restored again", E.res = "err")
     ELSE /\ Chk("restore opens", E.res = "ok")
          /\ Chk("durable leaf", E.right = 0 \/ E.right \in DOMAIN cs[E.v])
  /\ rs' = {IF E.over = 1 THEN <<>> ELSE Upto(cs[E.v], E.right)}
  /\ UNCHANGED <<g, cs, first, latest, pruned, pend, hm, hs, st, staled, its, hist>>
RChunk ==
  /\ Chk("no crash on a chunk", E.res \in {"ok", "err"})
  /\ Chk("refused write is reported", E.refused = 1 => E.res = "err")
  /\ Chk("only valid chunks are admitted", E.res = "ok" => \E d \in rs : ChunkOk(d, cs[E.v]))
  /\ Chk("valid chunks are admitted",
         (E.res = "err" /\ E.refused = 0) => \E d \in rs : ~ChunkOk(d, cs[E.v]))
  /\ Chk("rejected chunk leaves the store unchanged", E.res = "err" => E.same = 1)
  /\ Chk("no root before the end", E.root = 0)
  /\ rs' = IF E.res = "ok" THEN {Upto(cs[E.v], E.items[Len(E.items)][1])}
           ELSE {Added(d, E.items, n) : d \in rs, n \in 0..Len(E.items)}
  /\ UNCHANGED <<g, cs, first, latest, pruned, pend, hm, hs, st, staled, its, hist>>
RFinish ==
  /\ Chk("no crash on finish", E.res \in {"ok", "err"})
  /\ Chk("refused write is reported", E.refused = 1 => E.res = "err")
  /\ Chk("finish only with everything", E.res = "ok" => (cs[E.v] \in rs /\ E.root = 1))
  /\ Chk("complete restore finishes", (E.res = "err" /\ E.refused = 0) => rs # {cs[E.v]})
  /\ Chk("failed finish stores nothing", E.res = "err" => (E.same = 1 /\ E.root = 0))
  /\ UNCHANGED <<g, cs, first, latest, pruned, pend, hm, hs, st, staled, its, hist, rs>>

----------------------------------------------------------------------------
Do == CASE E.e = "reset" -> Reset
        [] E.e = "commit" -> Commit
        [] E.e = "stored" -> Stored
        [] E.e = "roots" -> Roots
        [] E.e = "root" -> Root
        [] E.e = "rebuild" -> Rebuild
        [] E.e = "read" -> Read
        [] E.e = "tread" -> TRead
        [] E.e = "titer" -> TIter
        [] E.e = "iter" -> Iter
        [] E.e = "iopen" -> IOpen
        [] E.e = "inext" -> INext
        [] E.e = "count" -> Count
        [] E.e = "proof" -> Proof
        [] E.e = "claim" -> Claim
        [] E.e = "nover" -> NoVer
        [] E.e = "upd" -> Upd
        [] E.e = "prune" -> Prune
        [] E.e = "book" -> Book
        [] E.e = "purged" -> Purged
        [] E.e = "hget" -> HGet
        [] E.e = "rawval" -> RawVal
        [] E.e = "rawnode" -> RawNode
        [] E.e = "excl" -> Excl
        [] E.e = "ics" -> Ics
        [] E.e = "ropen" -> ROpen
        [] E.e = "rchunk" -> RChunk
        [] E.e = "rfinish" -> RFinish
Next == l <= N /\ l' = l + 1 /\ Do
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = N THEN PrintT(<<"ACCEPTED", N>>)
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
