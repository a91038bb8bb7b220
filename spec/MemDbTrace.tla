----------------------------- MODULE MemDbTrace -----------------------------
(* Is a recorded concurrent history of the in-memory node database           *)
(* linearizable?  The trace lists calls and returns in the order of a global *)
(* counter read before each call and after each return.  Between the two the *)
(* operation must take effect at one instant (a batch: one instant per item).*)
(* An effect is only placed when the next return needs it; that loses nothing*)
(* and keeps the search small.  Each call line carries the result that was   *)
(* eventually returned, so that wrong placements are dropped at once.        *)
EXTENDS MemDbCore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES
  l,      \* next trace line
  m,      \* tracked key -> value, the keys in the database only
  base,   \* number of other entries (never touched)
  light,  \* are removals carried out?
  p       \* thread -> call in progress
vars == <<l, m, base, light, p>>

E == Trace[l]
Idle == [op |-> "idle", left |-> 0]

Init == /\ l = 1 /\ m = <<>> /\ base = 0 /\ light = TRUE /\ p = <<>> /\ TLCSet(1, 1)
Reset == /\ l <= N /\ E.e = "reset"
         /\ l' = l + 1 /\ light' = (E.light = 1) /\ base' = E.base
         /\ m' = [k \in {E.init[i][1] : i \in 1..Len(E.init)} |->
                    E.init[CHOOSE i \in 1..Len(E.init) : E.init[i][1] = k][2]]
         /\ p' = [i \in 1..E.threads |-> Idle]
Call == /\ l <= N /\ E.e = "call" /\ p[E.th] = Idle
        /\ l' = l + 1
        /\ p' = [p EXCEPT ![E.th] = [op |-> E.op, k |-> E.k, v |-> E.v, ks |-> E.ks, vs |-> E.vs, res |-> E.res,
                                      all |-> E.all, left |-> IF E.op \in {"insb", "remb"} THEN Len(E.ks) ELSE 1]]
        /\ UNCHANGED <<m, base, light>>

Effect(t) ==
  LET o == p[t] IN
  /\ o.left > 0
  /\ o.res = Result(m, base, o)
  /\ o.op = "values" => Len(o.all) = Cardinality(DOMAIN m) /\ ToSet(o.all) = Pairs(m)
  /\ m' = After(m, light, o)
  /\ p' = [p EXCEPT ![t].left = o.left - 1]
Lin == /\ l <= N /\ E.e = "ret" /\ p[E.th].left > 0
       /\ \E t \in DOMAIN p : p[t].left > 0 /\ Effect(t)
       /\ UNCHANGED <<l, base, light>>
Ret == /\ l <= N /\ E.e = "ret" /\ p[E.th] # Idle /\ p[E.th].left = 0
       /\ l' = l + 1 /\ p' = [p EXCEPT ![E.th] = Idle] /\ UNCHANGED <<m, base, light>>

Note == TLCSet(1, IF l' > TLCGet(1) THEN l' ELSE TLCGet(1))
Next == (Reset \/ Call \/ Lin \/ Ret) /\ Note
Spec == Init /\ [][Next]_vars
Accepted == IF TLCGet(1) = N + 1 THEN PrintT(<<"ACCEPTED", N>>)
            ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
