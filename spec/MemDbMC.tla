------------------------------ MODULE MemDbMC ------------------------------
(* The in-memory node database (pmt/src/db.rs), transcribed: several threads *)
(* run its operations against one map behind a reader-writer lock which lets *)
(* waiting writers go first (parking_lot).  Beside it runs the specification *)
(* of an atomic map (MemDbCore): `cfs` holds every way in which the calls so *)
(* far may have taken effect; a return whose result none of them explains    *)
(* leaves it empty.                                                          *)
(* Fault: 0 the code; 1 a listing that does not wait for the lock; 2 an      *)
(* insertion that copies the map, changes the copy and puts it back; 3 a     *)
(* listing that takes the lock again for every entry; 4 the same while still *)
(* holding the lock; 5 an emptiness test by two separate looks.              *)
EXTENDS MemDbCore

CONSTANTS TH, KEYS, Light, Calls, Fault

VARIABLES mp,      \* the shared map
          rd, wr,  \* threads holding the lock for reading (with multiplicity), for writing
          want,    \* threads waiting for writing
          pc,      \* thread -> [s: where it is, o: the operation, loc: what it has read, todo]
          n,       \* calls made
          cfs      \* configurations of the atomic map: [m, done: threads whose effect has been placed -> result]
vars == <<mp, rd, wr, want, pc, n, cfs>>

Idle == [s |-> "idle"]
Ops == {[op |-> "ins", k |-> k, v |-> v, left |-> 1] : k \in KEYS, v \in {1, 2}}
       \cup {[op |-> "rem", k |-> k, left |-> 1] : k \in KEYS}
       \cup {[op |-> "get", k |-> k, left |-> 1] : k \in KEYS}
       \cup {[op |-> x, left |-> 1] : x \in {"len", "empty", "values"}}
       \cup {[op |-> "insb", ks |-> SetToSeq(KEYS), vs |-> [i \in 1..Cardinality(KEYS) |-> 3], left |-> Cardinality(KEYS)],
             [op |-> "remb", ks |-> SetToSeq(KEYS), left |-> Cardinality(KEYS)]}
Writes(o) == o.op \in {"ins", "insb", "rem", "remb"}

(* every way to place pending effects                                        *)
Pend(t) == pc[t].s # "idle"
AtomicRes(m, o) == IF o.op = "values" THEN Pairs(m) ELSE Result(m, 0, o)
Steps(P, c) ==   \* P: thread -> operation in progress or <<>>
  {[m |-> After(c.m, Light, [P[t] EXCEPT !.left = c.left[t]]), left |-> [c.left EXCEPT ![t] = @ - 1],
    res |-> [c.res EXCEPT ![t] = AtomicRes(c.m, P[t])]] : t \in {x \in TH : c.left[x] > 0}}
RECURSIVE Close(_, _, _)
Close(P, done, new) == IF new = {} THEN done
                       ELSE LET nx == UNION {Steps(P, c) : c \in new} IN Close(P, done \cup new, nx \ (done \cup new))

Init == /\ \E D \in SUBSET KEYS : mp = [k \in D |-> 3]
        /\ rd = [t \in TH |-> 0] /\ wr = {} /\ want = {} /\ pc = [t \in TH |-> Idle] /\ n = 0
        /\ cfs = {[m |-> mp, left |-> [t \in TH |-> 0], res |-> [t \in TH |-> 0]]}

P2(t, o) == [x \in TH |-> IF x = t THEN o ELSE IF Pend(x) THEN pc[x].o ELSE <<>>]
Call(t) == /\ pc[t] = Idle /\ n < Calls /\ n' = n + 1
           /\ \E o \in Ops :
                /\ pc' = [pc EXCEPT ![t] = [s |-> "start", o |-> o, loc |-> <<>>, todo |-> {}]]
                /\ cfs' = TLCEval(LET st == {[c EXCEPT !.left[t] = o.left] : c \in cfs} IN Close(P2(t, o), {}, st))
           /\ UNCHANGED <<mp, rd, wr, want>>

(* the result a thread is about to return                                    *)
Res(t) == LET o == pc[t].o IN IF Writes(o) THEN 0 ELSE pc[t].loc
Return(t) == /\ pc[t].s = "ret"
             /\ cfs' = TLCEval({[c EXCEPT !.res[t] = 0] : c \in {x \in cfs : x.left[t] = 0 /\ x.res[t] = Res(t)}})
             /\ pc' = [pc EXCEPT ![t] = Idle]
             /\ UNCHANGED <<mp, rd, wr, want, n>>

Go(t, s) == pc' = [pc EXCEPT ![t].s = s]
NoWriter == wr = {} /\ want = {}
(* reading operations: acquire, look, release                                *)
Look(t) == LET o == pc[t].o IN
           IF o.op = "values" THEN Pairs(mp) ELSE Result(mp, 0, o)
RLock(t) == /\ pc[t].s = "start" /\ ~Writes(pc[t].o)
            /\ IF Fault = 1 /\ pc[t].o.op = "values" /\ ~NoWriter
               THEN /\ pc' = [pc EXCEPT ![t].s = "ret", ![t].loc = {}] /\ UNCHANGED rd
               ELSE /\ NoWriter /\ rd' = [rd EXCEPT ![t] = @ + 1]
                    /\ Go(t, "read")
            /\ UNCHANGED <<mp, wr, want, n, cfs>>
RRead(t) == /\ pc[t].s = "read"
            /\ LET o == pc[t].o IN
               IF Fault \in {3, 4} /\ o.op = "values"
               THEN pc' = [pc EXCEPT ![t].s = "each", ![t].todo = DOMAIN mp, ![t].loc = {}]
               ELSE IF Fault = 5 /\ o.op = "empty"
               THEN pc' = [pc EXCEPT ![t].s = "each", ![t].todo = KEYS, ![t].loc = 1]
               ELSE pc' = [pc EXCEPT ![t].s = "ret", ![t].loc = Look(t)]
            /\ rd' = IF Fault = 4 /\ pc[t].o.op = "values" THEN rd ELSE [rd EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<mp, wr, want, n, cfs>>
(* (faults) one more look, with its own lock, for every entry                *)
REach(t) == /\ pc[t].s = "each"
            /\ IF pc[t].todo = {}
               THEN /\ Go(t, "ret") /\ rd' = [rd EXCEPT ![t] = 0]
               ELSE /\ NoWriter
                    /\ LET k == Min(pc[t].todo) IN
                       pc' = [pc EXCEPT ![t].todo = @ \ {k},
                                        ![t].loc = IF pc[t].o.op = "empty" THEN (IF k \in DOMAIN mp THEN 0 ELSE @)
                                                   ELSE IF k \in DOMAIN mp THEN @ \cup {<<k, mp[k]>>} ELSE @]
                    /\ UNCHANGED rd
            /\ UNCHANGED <<mp, wr, want, n, cfs>>
(* writing operations: wait, acquire, change, release; a batch item by item  *)
WAsk(t) == /\ pc[t].s = "start" /\ Writes(pc[t].o)
           /\ IF pc[t].o.op \in {"rem", "remb"} /\ ~Light
              THEN Go(t, "ret") /\ UNCHANGED want
              ELSE IF Fault = 2 /\ pc[t].o.op \in {"ins", "insb"}
              THEN NoWriter /\ pc' = [pc EXCEPT ![t].s = "copied", ![t].loc = mp] /\ UNCHANGED want
              ELSE want' = want \cup {t} /\ Go(t, "wait")
           /\ UNCHANGED <<mp, rd, wr, n, cfs>>
WLock(t) == /\ pc[t].s = "wait" /\ wr = {} /\ \A x \in TH : rd[x] = 0
            /\ wr' = {t} /\ want' = want \ {t} /\ Go(t, "write")
            /\ UNCHANGED <<mp, rd, n, cfs>>
Next1(t, m2) == /\ mp' = m2
                /\ pc' = [pc EXCEPT ![t].o.left = @ - 1, ![t].s = IF pc[t].o.left = 1 THEN "ret" ELSE "start"]
WWrite(t) == /\ pc[t].s = "write" /\ Next1(t, After(mp, Light, pc[t].o))
             /\ wr' = {} /\ UNCHANGED <<rd, want, n, cfs>>
WBack(t) == /\ pc[t].s = "copied" /\ wr = {} /\ \A x \in TH : rd[x] = 0
            /\ Next1(t, After(pc[t].loc, Light, pc[t].o))
            /\ UNCHANGED <<rd, wr, want, n, cfs>>
Next == \E t \in TH : Call(t) \/ Return(t) \/ RLock(t) \/ RRead(t) \/ REach(t) \/ WAsk(t) \/ WLock(t) \/ WWrite(t) \/ WBack(t)
Spec == Init /\ [][Next]_vars
Sym == Permutations(TH)

Linearizable == cfs # {}
(* nobody is stuck                                                           *)
Busy == {t \in TH : pc[t] # Idle}
NoDeadlock == Busy # {} => \E t \in Busy : ENABLED (Return(t) \/ RLock(t) \/ RRead(t) \/ REach(t) \/ WAsk(t) \/ WLock(t)
                                                    \/ WWrite(t) \/ WBack(t))
Quiet == Busy = {} => \E c \in cfs : c.m = mp
=============================================================================
