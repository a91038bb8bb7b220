-------------------------------- MODULE JmtMC --------------------------------
(* The update algorithm of the Jellyfish Merkle tree (jmt/src/tree.rs        *)
(* insert_at and helpers, jmt/src/tree_cache.rs), transcribed, for a small   *)
(* key universe: a set of writes is applied one write at a time to the tree  *)
(* of the previous version, nodes written and retired are collected, and     *)
(* freezing closes the version.  What a node was written in an earlier       *)
(* version or in this one is all that matters of its version, so the state   *)
(* space is finite and histories of any length are covered.                  *)
(* Checked: whatever the history, the tree is the minimal tree of the        *)
(* contents (JmtCore), nothing is written twice or retired twice, every node *)
(* written is reachable, exactly the superseded nodes are retired, and the   *)
(* statistics count these.                                                   *)
EXTENDS JmtCore

CONSTANTS KJ,        \* the keys' nibbles (all of one length), in order
          NV,        \* number of values
          MaxOps, MaxKeys, Out

VARIABLES tree,      \* [t "N", new] | [t "L", k, v, new] | [t "I", ch: nibble -> node, new]; t "M": no root yet
          c,         \* contents
          cache,     \* positions written in this version
          stale,     \* <<position, leaf?>> retired in this version
          nl, sl,    \* the counters of leaves written and retired
          base,      \* <<position, leaf?>> of the tree at the start of this version
          h
vars == <<tree, c, cache, stale, nl, sl, base, h>>
view == <<tree, c, cache, stale, nl, sl, base>>

G == Geometry(KJ)
NK == G.n
Nib(k, d) == KJ[k][d + 1]
P(d, k) == Pos(G, d, k)
Null(new) == [t |-> "N", new |-> new]
Leaf(k, v, new) == [t |-> "L", k |-> k, v |-> v, new |-> new]
Inner(ch, new) == [t |-> "I", ch |-> ch, new |-> new]

----------------------------------------------------------------------------
(* the tree cache: [w written positions, s retired, nl, sl]                  *)
PutNode(q, p, leaf) ==
  [q EXCEPT !.w = IF Assert(p \notin @, <<"node already exists", p>>) THEN @ \cup {p} ELSE @,
            !.nl = @ + IF leaf THEN 1 ELSE 0]
DelNode(q, p, new, leaf) ==
  IF new THEN [q EXCEPT !.w = IF Assert(p \in @, <<"new node unknown", p>>) THEN @ \ {p} ELSE @,
                        !.nl = @ - IF leaf THEN 1 ELSE 0]
  ELSE [q EXCEPT !.s = IF Assert(\A x \in @ : x[1] # p, <<"stale twice", p>>) THEN @ \cup {<<p, leaf>>} ELSE @,
                 !.sl = @ + IF leaf THEN 1 ELSE 0]

----------------------------------------------------------------------------
(* insert_at: v = 0 deletes.  [r "same" | "upd" | "gone", n, q]              *)
RECURSIVE Chain(_, _, _, _, _)   \* the internal nodes from depth m up to depth d around x, a node at depth m
Chain(x, k, m, d, q) ==
  IF m = d THEN [r |-> "upd", n |-> x, q |-> q]
  ELSE Chain(Inner(Nib(k, m - 1) :> x, TRUE), k, m - 1, d, TLCEval(PutNode(q, P(m - 1, k), FALSE)))
AtLeaf(x, d, k, v, q) ==
  LET m == IF x.k = k THEN G.len ELSE G.cpn[x.k][k] IN
  IF x.k = k THEN
    LET q1 == TLCEval(DelNode(q, P(d, k), x.new, TRUE)) IN
    IF v = 0 THEN [r |-> "gone", n |-> x, q |-> q1]
    ELSE [r |-> "upd", n |-> Leaf(k, v, TRUE), q |-> PutNode(q1, P(d, k), TRUE)]
  ELSE IF v = 0 THEN [r |-> "same", n |-> x, q |-> q]
  ELSE LET q1 == TLCEval(DelNode(q, P(d, k), x.new, TRUE))
           q2 == TLCEval(PutNode(q1, P(m + 1, x.k), TRUE))
           q3 == TLCEval(PutNode(q2, P(m + 1, k), TRUE))
           q4 == TLCEval(PutNode(q3, P(m, k), FALSE))
           i == Inner((Nib(x.k, m) :> Leaf(x.k, x.v, TRUE)) @@ (Nib(k, m) :> Leaf(k, v, TRUE)), TRUE)
       IN Chain(i, k, m, d, q4)
RECURSIVE InsAt(_, _, _, _, _)
InsAt(x, d, k, v, q) ==
  CASE x.t \in {"N", "M"} ->
         LET q1 == TLCEval(IF x.t = "N" /\ x.new THEN DelNode(q, P(0, 1), TRUE, FALSE) ELSE q) IN
         IF v = 0 THEN [r |-> "same", n |-> IF x.t = "N" /\ x.new THEN [t |-> "M"] ELSE x, q |-> q1]
         ELSE [r |-> "upd", n |-> Leaf(k, v, TRUE), q |-> PutNode(q1, P(0, 1), TRUE)]
    [] x.t = "L" -> AtLeaf(x, d, k, v, q)
    [] x.t = "I" ->
         LET i == Nib(k, d)
             sub == TLCEval(IF i \in DOMAIN x.ch THEN InsAt(x.ch[i], d + 1, k, v, q)
                    ELSE IF v = 0 THEN [r |-> "same", n |-> x, q |-> q]
                    ELSE [r |-> "upd", n |-> Leaf(k, v, TRUE), q |-> PutNode(q, P(d + 1, k), TRUE)])
         IN IF sub.r = "same" THEN [r |-> "same", n |-> x, q |-> sub.q]
            ELSE LET ch == IF sub.r = "upd" THEN (i :> sub.n) @@ x.ch
                           ELSE [j \in DOMAIN x.ch \ {i} |-> x.ch[j]]
                     q1 == TLCEval(DelNode(sub.q, P(d, k), x.new, FALSE))
                     j == CHOOSE y \in DOMAIN ch : TRUE
                 IN IF ch = <<>> THEN [r |-> "gone", n |-> x, q |-> q1]
                    ELSE IF Cardinality(DOMAIN ch) = 1 /\ ch[j].t = "L"
                    THEN LET q2 == TLCEval(DelNode(q1, P(d + 1, ch[j].k), ch[j].new, TRUE))
                         IN [r |-> "upd", n |-> [ch[j] EXCEPT !.new = TRUE], q |-> PutNode(q2, P(d, k), TRUE)]
                    ELSE [r |-> "upd", n |-> Inner(ch, TRUE), q |-> PutNode(q1, P(d, k), FALSE)]

----------------------------------------------------------------------------
RECURSIVE Old(_)
Old(x) == CASE x.t = "I" -> Inner([i \in DOMAIN x.ch |-> Old(x.ch[i])], FALSE)
            [] x.t = "M" -> x
            [] OTHER -> [x EXCEPT !.new = FALSE]
RECURSIVE Rep1(_)     \* some key below a node
Rep1(x) == IF x.t = "L" THEN x.k ELSE Rep1(x.ch[CHOOSE i \in DOMAIN x.ch : TRUE])
(* <<position, leaf?, new?>> of every node                                   *)
RECURSIVE Nodes(_, _)
Nodes(x, d) ==
  CASE x.t = "M" -> {}
    [] x.t = "N" -> {<<P(0, 1), FALSE, x.new>>}
    [] x.t = "L" -> {<<P(d, x.k), TRUE, x.new>>}
    [] x.t = "I" -> {<<P(d, Rep1(x)), FALSE, x.new>>} \cup UNION {Nodes(x.ch[i], d + 1) : i \in DOMAIN x.ch}
RECURSIVE Strip(_)
Strip(x) == CASE x.t \in {"N", "M"} -> <<"N">>
              [] x.t = "L" -> <<"L", x.k, x.v>>
              [] x.t = "I" -> <<"I", [i \in DOMAIN x.ch |-> Strip(x.ch[i])]>>
(* the minimal tree of a content                                             *)
RECURSIVE Canon(_, _, _)
Canon(con, D, d) ==
  IF D = {} THEN <<"N">>
  ELSE IF Cardinality(D) = 1 THEN LET k == CHOOSE x \in D : TRUE IN <<"L", k, con[k]>>
  ELSE <<"I", [i \in {Nib(k, d) : k \in D} |-> Canon(con, {k \in D : Nib(k, d) = i}, d + 1)]>>

Init == /\ tree = Null(TRUE) /\ c = <<>> /\ cache = {P(0, 1)} /\ stale = {} /\ nl = 0 /\ sl = 0 /\ base = {} /\ h = <<>>
(* a write: k is set to v, or deleted (v = 0)                                *)
Write(k, v) ==
  \E r \in {TLCEval(InsAt(tree, 0, k, v, [w |-> cache, s |-> stale, nl |-> nl, sl |-> sl]))} :
    \E q \in {TLCEval(IF r.r = "gone" THEN PutNode(r.q, P(0, 1), FALSE) ELSE r.q)} :
      /\ tree' = IF r.r = "gone" THEN Null(TRUE) ELSE r.n
      /\ cache' = q.w /\ stale' = q.s /\ nl' = q.nl /\ sl' = q.sl
      /\ c' = IF v = 0 THEN [x \in DOMAIN c \ {k} |-> c[x]] ELSE (k :> v) @@ c
      /\ h' = Append(h, 100 * k + v)
      /\ UNCHANGED base
(* what freezing makes of the current version: the root is written if       *)
(* nothing else was                                                          *)
Frozen == IF cache = {} /\ stale = {} THEN [w |-> {P(0, 1)}, root |-> IF tree.t = "M" THEN Null(TRUE) ELSE [tree EXCEPT !.new = TRUE]]
          ELSE IF tree.t = "M" THEN [w |-> cache \cup {P(0, 1)}, root |-> Null(TRUE)]
          ELSE [w |-> cache, root |-> tree]
Freeze ==
  /\ tree' = Old(Frozen.root)
  /\ base' = {<<x[1], x[2]>> : x \in Nodes(Frozen.root, 0)}
  /\ cache' = {} /\ stale' = {} /\ nl' = 0 /\ sl' = 0 /\ UNCHANGED c /\ h' = Append(h, 0)

Next == /\ Len(h) < MaxOps
        /\ \/ \E k \in 1..NK : \E v \in 0..NV : Write(k, v)
           \/ Freeze
Spec == Init /\ [][Next]_vars
Bounded == Cardinality(DOMAIN c) <= MaxKeys

----------------------------------------------------------------------------
Root0 == P(0, 1)
Minimal == Strip(tree) = Canon(c, DOMAIN c, 0)
(* judged on what freezing would store                                       *)
AllReachable == LET f == Frozen IN f.w = {x[1] : x \in {y \in Nodes(f.root, 0) : y[3]}}
RootWritten == Root0 \in Frozen.w
LeavesCounted == LET f == Frozen IN
  (cache # {} \/ stale # {}) => nl = Cardinality({x \in Nodes(f.root, 0) : x[2] /\ x[3]})
RetiredExactly ==
  LET old == {<<x[1], x[2]>> : x \in {y \in Nodes(Frozen.root, 0) : ~y[3]}}
      gone == {x \in base \ old : x[1] # Root0}
  IN /\ gone = {x \in stale : x[1] # Root0}
     /\ stale \subseteq base
     /\ stale \cap old = {}
     /\ sl = Cardinality({x \in stale : x[2]})
Export == Out = FALSE \/ ~Bounded \/ PrintT("H" \o ToString(h))
=============================================================================
