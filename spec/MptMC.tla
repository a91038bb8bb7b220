------------------------------ MODULE MptMC ------------------------------
(* The algorithm of the Patricia trie (pmt/src/inner.rs), transcribed: the   *)
(* in-memory tree with its not yet loaded parts, insert_at, delete_at,       *)
(* degenerate, the tracking of superseded nodes, commit and the pruning node *)
(* database, for one owner.  Checked against the definition of MptCore:      *)
(* whatever the history, the tree is the canonical one of the contents.      *)
(*                                                                           *)
(* A node's hash is represented by the encoded node itself, i.e. the node    *)
(* with every child that is not shorter than a hash replaced by its hash.    *)
EXTENDS MptCore

CONSTANTS
  KN,        \* the keys' nibble sequences, in lexicographic order
  VALS,      \* VALS[v] = length in bytes of value v
  PERKEY,    \* are the values dealt out to the keys, each used with one only?
  Light,     \* does the database prune?
  Faults,    \* how many commits may fail
  Thaws,     \* how many times the trie may be written out and read back
  MaxOps, MaxKeys, Out

VARIABLES mem, rh, pass, db, c, cc, clean, faulty, h
vars == <<mem, rh, pass, db, c, cc, clean, faulty, h>>
view == <<mem, rh, pass, db, c, cc, clean, faulty>>

G == [Geo(KN, [v \in 1..Len(VALS) |-> [b |-> <<-(1000000 + v)>>, n |-> VALS[v]]]) EXCEPT !.sym = TRUE]
NK == Len(KN)
TERM == 16
NIB == 1 + Max({0} \cup UNION {ToSet(KN[k]) : k \in 1..NK})   \* children actually used
Path(k) == KN[k] \o <<TERM>>

----------------------------------------------------------------------------
E0 == [t |-> "E"]
Leaf(key, v) == [t |-> "L", key |-> key, v |-> v]
Ext(pre, ch) == [t |-> "X", pre |-> pre, ch |-> ch]
Branch(ch, v) == [t |-> "B", ch |-> ch, v |-> v]           \* v = 0: no value
Hash(e) == [t |-> "H", e |-> e]
NoCh == [i \in 1..NIB |-> E0]
Off(s, n) == SubSeq(s, n + 1, Len(s))

(* encoded lengths                                                           *)
StrN(n) == IF n = 1 THEN 2 ELSE n + Len(Head0(128, n))      \* one-byte values are >= 128 here
KeyN(n) == LET b == n \div 2 + 1 IN IF b = 1 THEN 1 ELSE b + Len(Head0(128, b))
ListN(n) == n + Len(Head0(192, n))
RECURSIVE EncN(_)
RefN(x) == IF x.t = "H" THEN 33 ELSE IF x.t = "E" THEN 1
           ELSE LET n == EncN(x) IN IF n >= HASH THEN 33 ELSE n
RECURSIVE SumRef(_, _)
SumRef(ch, i) == IF i > NIB THEN 16 - NIB ELSE RefN(ch[i]) + SumRef(ch, i + 1)
EncN(x) == CASE x.t = "E" -> 1
             [] x.t = "L" -> ListN(KeyN(Len(x.key) - 1) + StrN(VALS[x.v]))
             [] x.t = "X" -> ListN(KeyN(Len(x.pre)) + RefN(x.ch))
             [] x.t = "B" -> ListN(SumRef(x.ch, 1) + IF x.v = 0 THEN 1 ELSE StrN(VALS[x.v]))

(* write_node: what a node becomes in its parent, and what has to be stored  *)
RECURSIVE Enc(_)
Ref1(x) == IF x.t = "H" THEN [r |-> x, w |-> {}]
           ELSE LET e == TLCEval(Enc(x)) IN
                IF EncN(e.r) < HASH THEN e ELSE [r |-> Hash(e.r), w |-> e.w \cup {e.r}]
Enc(x) == CASE x.t \in {"E", "L", "H"} -> [r |-> x, w |-> {}]
            [] x.t = "X" -> LET e == TLCEval(Ref1(x.ch)) IN [r |-> Ext(x.pre, e.r), w |-> e.w]
            [] x.t = "B" -> LET es == TLCEval([i \in 1..NIB |-> Ref1(x.ch[i])])
                            IN [r |-> Branch([i \in 1..NIB |-> es[i].r], x.v), w |-> UNION {es[i].w : i \in 1..NIB}]

----------------------------------------------------------------------------
(* lookup                                                                    *)
RECURSIVE GetAt(_, _)
GetAt(x, p) ==
  CASE x.t = "E" -> 0
    [] x.t = "L" -> IF x.key = p THEN x.v ELSE 0
    [] x.t = "B" -> IF p[1] = TERM THEN x.v ELSE GetAt(x.ch[p[1] + 1], Off(p, 1))
    [] x.t = "X" -> IF Lcp(p, x.pre) = Len(x.pre) THEN GetAt(x.ch, Off(p, Len(x.pre))) ELSE 0
    [] x.t = "H" -> IF x.e \in db THEN GetAt(x.e, p) ELSE -2

(* insertion: [n |-> node, s |-> superseded nodes]                           *)
BIns(b, i, x) == IF i = TERM THEN [b EXCEPT !.v = x.v] ELSE [b EXCEPT !.ch[i + 1] = x]
RECURSIVE InsAt(_, _, _)
InsAt(x, p, v) ==
  CASE x.t = "E" -> [n |-> Leaf(p, v), s |-> {}]
    [] x.t = "L" ->
         LET m == Lcp(p, x.key) IN
         IF m = Len(x.key) THEN [n |-> Leaf(x.key, v), s |-> {}]
         ELSE LET b0 == BIns(Branch(NoCh, 0), x.key[m + 1], Leaf(Off(x.key, m + 1), x.v))
                  b == BIns(b0, p[m + 1], Leaf(Off(p, m + 1), v))
              IN [n |-> IF m = 0 THEN b ELSE Ext(SubSeq(p, 1, m), b), s |-> {}]
    [] x.t = "B" ->
         IF p[1] = TERM THEN [n |-> [x EXCEPT !.v = v], s |-> {}]
         ELSE LET r == TLCEval(InsAt(x.ch[p[1] + 1], Off(p, 1), v))
              IN [n |-> [x EXCEPT !.ch[p[1] + 1] = r.n], s |-> r.s]
    [] x.t = "X" ->
         LET m == Lcp(p, x.pre) IN
         IF m = 0 THEN
           LET b == BIns(Branch(NoCh, 0), x.pre[1], IF Len(x.pre) = 1 THEN x.ch ELSE Ext(Off(x.pre, 1), x.ch))
           IN InsAt(b, p, v)
         ELSE IF m = Len(x.pre) THEN
           LET r == TLCEval(InsAt(x.ch, Off(p, m), v)) IN [n |-> Ext(x.pre, r.n), s |-> r.s]
         ELSE LET r == TLCEval(InsAt(Ext(Off(x.pre, m), x.ch), Off(p, m), v))
              IN [n |-> Ext(SubSeq(x.pre, 1, m), r.n), s |-> r.s]
    [] x.t = "H" -> LET r == TLCEval(InsAt(x.e, p, v)) IN [n |-> r.n, s |-> r.s \cup {x.e}]

(* removal: [n |-> node, d |-> deleted?, s |-> superseded nodes]             *)
RECURSIVE Degen(_)
Degen(x) ==
  CASE x.t = "B" ->
         LET used == {i \in 1..NIB : x.ch[i].t # "E"} IN
         IF used = {} /\ x.v # 0 THEN [n |-> Leaf(<<TERM>>, x.v), s |-> {}]
         ELSE IF Cardinality(used) = 1 /\ x.v = 0
              THEN LET i == CHOOSE j \in used : TRUE IN Degen(Ext(<<i - 1>>, x.ch[i]))
              ELSE [n |-> x, s |-> {}]
    [] x.t = "X" ->
         (CASE x.ch.t = "X" -> Degen(Ext(x.pre \o x.ch.pre, x.ch.ch))
           [] x.ch.t = "L" -> [n |-> Leaf(x.pre \o x.ch.key, x.ch.v), s |-> {}]
           [] x.ch.t = "H" -> LET r == TLCEval(Degen(Ext(x.pre, x.ch.e))) IN [n |-> r.n, s |-> r.s \cup {x.ch.e}]
           [] OTHER -> [n |-> x, s |-> {}])
    [] OTHER -> [n |-> x, s |-> {}]
RECURSIVE DelAt(_, _)
DelAt(x, p) ==
  LET raw ==
        CASE x.t = "E" -> [n |-> x, d |-> FALSE, s |-> {}]
          [] x.t = "L" -> [n |-> IF x.key = p THEN E0 ELSE x, d |-> x.key = p, s |-> {}]
          [] x.t = "B" ->
               IF p[1] = TERM THEN [n |-> [x EXCEPT !.v = 0], d |-> x.v # 0, s |-> {}]
               ELSE LET r == TLCEval(DelAt(x.ch[p[1] + 1], Off(p, 1)))
                    IN [n |-> IF r.d THEN [x EXCEPT !.ch[p[1] + 1] = r.n] ELSE x, d |-> r.d, s |-> r.s]
          [] x.t = "X" ->
               IF Lcp(p, x.pre) = Len(x.pre)
               THEN LET r == TLCEval(DelAt(x.ch, Off(p, Len(x.pre))))
                    IN [n |-> IF r.d THEN Ext(x.pre, r.n) ELSE x, d |-> r.d, s |-> r.s]
               ELSE [n |-> x, d |-> FALSE, s |-> {}]
          [] x.t = "H" -> LET r == TLCEval(DelAt(x.e, p)) IN [n |-> r.n, d |-> r.d, s |-> r.s \cup {x.e}]
  IN IF raw.d /\ raw.n.t \in {"B", "X"}
     THEN LET q == TLCEval(Degen(raw.n)) IN [n |-> q.n, d |-> TRUE, s |-> raw.s \cup q.s]
     ELSE raw

----------------------------------------------------------------------------
(* the definition, in the same representation                                *)
RECURSIVE Canon(_, _, _)
Canon(con, K, d) ==
  IF K = {} THEN E0
  ELSE LET lo == Min(K) IN
       IF Cardinality(K) = 1 THEN Leaf(Off(Path(lo), d), con[lo])
       ELSE LET p == G.cp[lo][Max(K)] IN
            IF p > d THEN Ext(SubSeq(KN[lo], d + 1, p), Canon(con, K, p))
            ELSE LET here == {k \in K : Len(KN[k]) = d} IN
                 Branch([i \in 1..NIB |-> Canon(con, {k \in K \ here : KN[k][d + 1] = i - 1}, d + 1)],
                        IF here = {} THEN 0 ELSE con[CHOOSE k \in here : TRUE])
CanonOf(con) == Canon(con, Keys(con), 0)
Committed(con) == LET e == Enc(CanonOf(con)) IN [root |-> e.r, nodes |-> e.w \cup {e.r}]

RECURSIVE Load(_)      \* everything loaded; fails if a node is missing
Load(x) == CASE x.t \in {"E", "L"} -> x
             [] x.t = "X" -> Ext(x.pre, Load(x.ch))
             [] x.t = "B" -> Branch([i \in 1..NIB |-> Load(x.ch[i])], x.v)
             [] x.t = "H" -> IF x.e \in db THEN Load(x.e) ELSE [t |-> "missing"]

----------------------------------------------------------------------------
Init == /\ mem = E0 /\ rh = E0 /\ pass = {} /\ db = {} /\ c = NoContent(G) /\ cc = <<>>
        /\ clean = TRUE /\ faulty = 0 /\ h = <<>>

(* operations are logged as numbers: 0 commit, 1 reopen, 2-4 failed commit, *)
(* 5 written out and read back, 100 k + v put (v > 0) or remove (v = 0) *)
Log(op) == h' = Append(h, op)
Mine(k) == IF PERKEY THEN {v \in 1..Len(VALS) : v - NK * ((v - 1) \div NK) = k} ELSE 1..Len(VALS)
Put(k, v) ==
  \E r \in {TLCEval(InsAt(mem, Path(k), v))} :
    /\ mem' = r.n /\ pass' = pass \cup r.s
    /\ c' = [c EXCEPT ![k] = v] /\ clean' = FALSE
    /\ Log(100 * k + v) /\ UNCHANGED <<rh, db, cc, faulty>>
Del(k) ==
  \E r \in {TLCEval(DelAt(mem, Path(k)))} :
    /\ Assert(r.d = (c[k] # 0), "removal result")
    /\ IF r.d THEN mem' = r.n /\ pass' = pass \cup r.s /\ clean' = FALSE
              ELSE UNCHANGED <<mem, pass, clean>>
    /\ c' = [c EXCEPT ![k] = 0]
    /\ Log(100 * k) /\ UNCHANGED <<rh, db, cc, faulty>>
Plan == LET e == TLCEval(Enc(mem))
            root == IF mem.t = "H" THEN mem.e ELSE e.r
            gen == IF mem.t = "H" THEN {} ELSE e.w \cup {e.r}
        IN [root |-> root, gen |-> gen, gone |-> ((pass \cup IF root # rh THEN {rh} ELSE {}) \ gen)]
Commit ==
  \E p \in {TLCEval(Plan)} :
    /\ db' = (db \cup p.gen) \ (IF Light THEN p.gone ELSE {})
    /\ rh' = p.root /\ mem' = p.root /\ pass' = {} /\ cc' = c /\ clean' = TRUE
    /\ Log(0) /\ UNCHANGED <<c, faulty>>
(* a commit that fails while writing, while removing, or at the last read    *)
FailWrite ==
  /\ faulty < Faults
  /\ \E p \in {TLCEval(Plan)} : \E W \in SUBSET p.gen : db' = db \cup W
  /\ faulty' = faulty + 1 /\ clean' = FALSE /\ Log(2) /\ UNCHANGED <<mem, rh, pass, c, cc>>
FailRemove ==
  /\ faulty < Faults /\ Light
  /\ \E p \in {TLCEval(Plan)} : \E R \in SUBSET p.gone :
       /\ db' = (db \cup p.gen) \ R
       /\ pass' = pass \cup IF p.root # rh THEN {rh} ELSE {}
  /\ faulty' = faulty + 1 /\ clean' = FALSE /\ cc' = <<>> /\ Log(3) /\ UNCHANGED <<mem, rh, c>>
FailRead ==
  /\ faulty < Faults
  /\ \E p \in {TLCEval(Plan)} :
       /\ db' = (db \cup p.gen) \ (IF Light THEN p.gone ELSE {})
       /\ rh' = p.root /\ pass' = {} /\ cc' = c
  /\ faulty' = faulty + 1 /\ clean' = FALSE /\ Log(4) /\ UNCHANGED <<mem, c>>
Reopen == /\ cc # <<>> /\ clean /\ mem.t # "H"
          /\ mem' = Hash(rh) /\ pass' = {} /\ Log(1) /\ UNCHANGED <<rh, db, c, cc, clean, faulty>>

(* the trie is written out in serialized form and read back over the same    *)
(* database: what is tracked for the next commit is not part of that form    *)
Thaw == /\ faulty < Thaws
        /\ pass' = {} /\ faulty' = faulty + 1 /\ Log(5) /\ UNCHANGED <<mem, rh, db, c, cc, clean>>

Next == /\ Len(h) < MaxOps
        /\ \/ \E k \in 1..NK : (\E v \in Mine(k) : Put(k, v)) \/ Del(k)
           \/ Commit \/ Reopen \/ FailWrite \/ FailRemove \/ FailRead \/ Thaw
Spec == Init /\ [][Next]_vars
Bounded == Cardinality(Keys(c)) <= MaxKeys

----------------------------------------------------------------------------
Canonical == Load(mem) = CanonOf(c)
Lookups == \A k \in 1..NK : GetAt(mem, Path(k)) = c[k]
Durable == cc # <<>> => (Committed(cc).nodes \subseteq db /\ rh = Committed(cc).root)
Tidy == (Light /\ faulty = 0 /\ cc # <<>>) => db = Committed(cc).nodes
RootOk == clean => (cc # <<>> => c = cc)
(* one history for every state reached (used with -view)                     *)
Export == Out = FALSE \/ ~Bounded \/ PrintT("H" \o ToString(h))
=============================================================================
