------------------------------ MODULE MptTrace ------------------------------
(* Validates recorded histories of the Patricia trie.  One trace line per    *)
(* public call.  Several views (handles) share one node database.            *)
EXTENDS MptCore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES
  l,       \* next trace line
  g,       \* key and value universe
  ids,     \* encoding of every node seen in a database -> its id
  tr,      \* view -> [c contents, clean (nothing done since commit or opening), r root id]
  rt,      \* committed root id -> [c contents, ok: is it the canonical root, x: node structure]
  dbn,     \* number of the current database
  light,   \* does it prune?
  db,      \* ids of the nodes it must hold
  exact,   \* does it hold nothing else?
  off      \* an operation failed which it is another property's matter to forbid: nothing more is expected
vars == <<l, g, ids, tr, rt, dbn, light, db, exact, off>>

E == Trace[l]
Bad(name, b) == IF b THEN TRUE ELSE PrintT(<<"FAILED", l, name>>) /\ FALSE
(* every observation is the matter of some properties, checked in their histories only *)
Chk(props, name, b) == IF g.f \in props THEN Bad(name, b) ELSE TRUE
Lookup == {"C13", "C15", "C16", "C20"}
Update == {"C13", "C15", "C16", "C20"}
Stores == {"C15", "C16", "C20"}

NoIds == (<<>> :> 0)
Init == /\ l = 1 /\ g = Geo(<<>>, <<>>) /\ ids = NoIds /\ tr = <<>> /\ rt = <<>>
        /\ dbn = 0 /\ light = FALSE /\ db = {} /\ exact = TRUE /\ off = FALSE
Rest == UNCHANGED <<g, ids, rt, dbn, light, db, exact>>
Keep == Rest /\ UNCHANGED off
Obs == Keep /\ UNCHANGED tr

Reset ==
  /\ g' = Geo(E.keys, E.vals) @@ [f |-> E.f] /\ Bad("key order", GeoOk(g'))
  /\ ids' = NoIds /\ tr' = <<>> /\ rt' = <<>> /\ dbn' = 1 /\ light' = (E.light = 1) /\ db' = {} /\ exact' = TRUE
  /\ off' = FALSE
(* a fresh database; views and roots of the old one are gone, hashes stay    *)
NewDb ==
  /\ dbn' = dbn + 1 /\ light' = (E.light = 1) /\ db' = {} /\ exact' = TRUE /\ tr' = <<>> /\ rt' = <<>>
  /\ UNCHANGED <<g, ids, off>>

View(c, clean, r) == [c |-> c, clean |-> clean, r |-> r]
New == tr' = (E.t :> View(NoContent(g), FALSE, 0)) @@ tr /\ Keep
Open == tr' = (E.t :> View(rt[E.root].c, TRUE, E.root)) @@ tr /\ Keep
Dup == tr' = (E.t :> tr[E.of]) @@ tr /\ Keep

(* hit = 1: the database failed, or did not have a node it was asked for     *)
Hit == E.hit = 1
Get ==
  /\ \E c \in {tr[E.t].c} :
       /\ IF Hit THEN Chk({"C20"}, "failed lookup is reported", E.get = Err)
          ELSE Chk(Lookup, "lookup", E.get = Look(c, E.k))
       /\ IF E.hit2 = 1 THEN Chk({"C20"}, "failed presence test is reported", E.has = Err)
          ELSE Chk(Lookup, "presence", E.has = IF c[E.k] = 0 THEN 0 ELSE 1)
  /\ Obs
Change(c, done) == tr' = [tr EXCEPT ![E.t] = [@ EXCEPT !.c = c, !.clean = @ /\ ~done]]
Refused == E.res < 0 /\ g.f \notin Update
Ins ==
  /\ \E c \in {tr[E.t].c} :
       IF Hit THEN Chk({"C20"}, "failed insertion is reported", E.res = Err) /\ Change(c, FALSE) /\ UNCHANGED off
       ELSE IF E.v = 0 THEN Chk(Update, "empty value refused", E.res = Err) /\ Change(c, FALSE) /\ UNCHANGED off
       ELSE /\ Chk(Update, "insertion", E.res = 0) /\ Change([c EXCEPT ![E.k] = E.v], TRUE)
            /\ off' = Refused
  /\ Rest
Rem ==
  /\ \E c \in {tr[E.t].c} :
       IF Hit THEN Chk({"C20"}, "failed removal is reported", E.res = Err) /\ Change(c, FALSE) /\ UNCHANGED off
       ELSE /\ Chk(Update, "removal", E.res = IF c[E.k] = 0 THEN 0 ELSE 1)
            /\ Change([c EXCEPT ![E.k] = 0], c[E.k] # 0)
            /\ off' = Refused
  /\ Rest

Learn(new) == LET one == [s \in {new[i].s : i \in 1..Len(new)} |->
                            (CHOOSE i \in 1..Len(new) : new[i].s = s)]
              IN [s \in DOMAIN one |-> new[one[s]].h]
Commit ==
  /\ ids' = TLCEval(Learn(E.new) @@ ids)
  /\ Chk({"C14"}, "nodes are stored under their hash", E.bad = 0)
  /\ \E held \in {TLCEval({E.db[i] : i \in 1..Len(E.db)})} :
     IF Hit THEN
       /\ Chk({"C20"}, "failed commit is reported", E.res = Err)
       /\ Chk({"C20"}, "failed commit loses nothing", light \/ db \subseteq held)
       /\ tr' = [tr EXCEPT ![E.t].clean = FALSE]
       /\ exact' = FALSE
       /\ UNCHANGED <<g, rt, dbn, light, db>>
     ELSE
       /\ Bad("commit", E.res = 0)
       /\ \E c \in {tr[E.t].c} : \E r \in {TLCEval(Root(g, ids', c))} : \E need \in {TLCEval(Stored(r))} :
          \E canon \in {E.root = r.id} :
            /\ Chk({"C14"}, "root", canon)
            /\ Chk(Stores, "needed nodes are stored", canon => need \subseteq held)
            /\ Chk({"C15", "C20"}, "nothing is lost", light \/ db \subseteq held)
            /\ Chk({"C16"}, "superseded nodes are removed", (light /\ exact /\ canon) => held \subseteq need)
            /\ tr' = [tr EXCEPT ![E.t] = View(c, TRUE, E.root)]
            /\ rt' = (E.root :> [c |-> c, ok |-> canon, x |-> r]) @@ (IF light THEN <<>> ELSE rt)
            /\ db' = IF ~canon THEN held ELSE IF light THEN need ELSE db \cup need
            /\ exact' = (exact /\ canon)
       /\ UNCHANGED <<g, dbn, light>>
  /\ UNCHANGED off

(* proofs made by a view that stands at a committed root                     *)
Proof ==
  /\ IF Hit THEN Chk({"C20"}, "failed proof is reported", E.res = Err)
     ELSE \E v \in {tr[E.t]} :
       IF v.clean /\ Keys(v.c) # {} THEN
         /\ Chk({"C16", "C17", "C20"}, "proof given", E.res = 0)
         /\ Chk({"C17"}, "proof nodes", rt[v.r].ok => E.ids = ProofOf(g, rt[v.r].x, E.k))
         /\ Chk({"C16", "C17", "C20"}, "proof verifies", \A i \in 1..Len(E.ver) : E.ver[i] = Look(v.c, E.k))
       ELSE Chk({"C17"}, "no crash", E.res \in {0, Err} /\ \A i \in 1..Len(E.ver) : E.ver[i] # -3)
  /\ Obs

(* any list of byte strings offered as proof; E.ids are the known nodes in it*)
Verify ==
  /\ IF E.root \in DOMAIN rt THEN
       \E ok \in {ToSet(ProofOf(g, rt[E.root].x, E.k)) \subseteq ToSet(E.ids)} :
         IF rt[E.root].ok
         THEN Bad(IF ok THEN "sufficient proof" ELSE "insufficient proof",
                  \A i \in 1..Len(E.res) : E.res[i] = IF ok THEN Look(rt[E.root].c, E.k) ELSE Err)
         ELSE Bad("no wrong answer", \A i \in 1..Len(E.res) : E.res[i] \in {Look(rt[E.root].c, E.k), Err})
     ELSE IF E.own = 1   \* a root chosen to match one of the offered strings
     THEN Bad("no crash", \A i \in 1..Len(E.res) : E.res[i] # -3)
     ELSE Bad("nothing is proved about an unknown root", \A i \in 1..Len(E.res) : E.res[i] = Err)
  /\ Obs

Iter ==
  /\ \E it \in {Items(tr[E.t].c)} :
       /\ Chk({"C19"}, "iteration", E.b = it)
       /\ Chk({"C19"}, "owned iteration", E.o = it)
       /\ Chk({"C19"}, "list of values", E.v = it)
       /\ Chk({"C15"}, "contents shown", ToSet(E.b) = ToSet(it))
  /\ Obs
Count ==
  /\ Chk({"C16"}, "number of stored nodes", (light /\ exact) => E.n = Cardinality(db) /\ E.empty = (IF db = {} THEN 1 ELSE 0))
  /\ Obs
Skip == Obs

----------------------------------------------------------------------------
Do == CASE E.e = "reset" -> Reset
        [] off -> Skip
        [] E.e = "newdb" -> NewDb
        [] E.e = "new" -> New
        [] E.e = "open" -> Open
        [] E.e = "dup" -> Dup
        [] E.e = "get" -> Get
        [] E.e = "ins" -> Ins
        [] E.e = "rem" -> Rem
        [] E.e = "commit" -> Commit
        [] E.e = "proof" -> Proof
        [] E.e = "verify" -> Verify
        [] E.e = "iter" -> Iter
        [] E.e = "count" -> Count
Next == l <= N /\ l' = l + 1 /\ Do
Spec == Init /\ [][Next]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = N THEN PrintT(<<"ACCEPTED", N>>)
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
=============================================================================
