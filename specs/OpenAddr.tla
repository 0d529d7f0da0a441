-------------------------------- MODULE OpenAddr -------------------------------
(* The open addressing algorithm behind the map: slots, deleted-slot marks, growth at half load.  *)
(* `m` is the abstract map maintained alongside; the invariants say that every lookup in the table  *)
(* agrees with it, for every hash function in the list.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NKeys, InitSize, MaxSize, Depth
VARIABLES hf, slots, used, tombs, m, hist
vars == <<hf, slots, used, tombs, m, hist>>
Keys == 1..NKeys
Hash(k) == CASE hf = 0 -> 0 [] hf = 1 -> k [] hf = 2 -> k % 2 [] hf = 3 -> MaxSize - 1
Empty == [st |-> "free", k |-> 0, v |-> 0]
Dead == [st |-> "dead", k |-> 0, v |-> 0]
Slot(k, v) == [st |-> "used", k |-> k, v |-> v]
Limit == Len(slots)
Idx(k, n) == (Hash(k) % n) + 1
Succ(i, n) == (i % n) + 1
(* walk the chain of k: position of k, or 0 *)
RECURSIVE Walk(_, _, _, _)
Walk(t, i, k, fuel) == IF fuel = 0 THEN -1 ELSE IF t[i].st = "free" THEN 0
                       ELSE IF t[i].st = "used" /\ t[i].k = k THEN i ELSE Walk(t, Succ(i, Len(t)), k, fuel - 1)
Find(k) == Walk(slots, Idx(k, Limit), k, Limit)
RECURSIVE FirstFree(_, _, _)
FirstFree(t, i, fuel) == IF t[i].st # "used" THEN i ELSE FirstFree(t, Succ(i, Len(t)), fuel - 1)
RECURSIVE Rehash(_, _, _)
Rehash(old, i, t) == IF i > Len(old) THEN t
    ELSE IF old[i].st # "used" THEN Rehash(old, i + 1, t)
    ELSE Rehash(old, i + 1, [t EXCEPT ![FirstFree(t, Idx(old[i].k, Len(t)), Len(t))] = old[i]])
Grow(t) == Rehash(t, 1, [i \in 1..(2 * Len(t)) |-> Empty])
Store(k, v) ==
    LET p == Find(k) IN
    IF p > 0 THEN slots' = [slots EXCEPT ![p].v = v] /\ UNCHANGED <<used, tombs>>
    ELSE LET q == FirstFree(slots, Idx(k, Limit), Limit)
             t == [slots EXCEPT ![q] = Slot(k, v)]
             d == IF slots[q].st = "dead" THEN 1 ELSE 0
         IN /\ used' = used + 1
            /\ IF 2 * (used + 1 + tombs - d) > Limit THEN slots' = Grow(t) /\ tombs' = 0
               ELSE slots' = t /\ tombs' = tombs - d
OInsert == \E k \in Keys, v \in 1..2 : Store(k, v) /\ m' = {x \in m : x[1] # k} \cup {<<k, v>>} /\ hist' = Append(hist, <<"insert", "a", k, v, v - 1>>)
OSub == \E k \in Keys : /\ IF Find(k) > 0 THEN UNCHANGED <<slots, used, tombs, m>> ELSE Store(k, 0) /\ m' = m \cup {<<k, 0>>}
                        /\ hist' = Append(hist, <<"sub", "a", k>>)
Kill(k) == LET p == Find(k) IN
           IF p > 0 THEN slots' = [slots EXCEPT ![p] = Dead] /\ used' = used - 1 /\ tombs' = tombs + 1
           ELSE UNCHANGED <<slots, used, tombs>>
OErase == \E k \in Keys : Kill(k) /\ m' = {x \in m : x[1] # k} /\ hist' = Append(hist, <<"erase", "a", k>>)
OClear == slots' = [i \in 1..Limit |-> Empty] /\ used' = 0 /\ tombs' = 0 /\ m' = {} /\ hist' = Append(hist, <<"clear", "a">>)
OInit == /\ hf \in 0..3 /\ slots = [i \in 1..InitSize |-> Empty] /\ used = 0 /\ tombs = 0 /\ m = {}
         /\ hist = <<<<"config", 0, hf>> \o [i \in 1..(NKeys + 1) |-> i], <<"new", "a", InitSize>>>>
ONext == (OInsert \/ OSub \/ OErase \/ OClear) /\ UNCHANGED hf
OSpec == OInit /\ [][ONext]_vars
View == <<hf, slots, used, tombs>>
Bound == Len(hist) <= Depth + 2 /\ Limit <= MaxSize
Agrees == \A k \in Keys : LET p == Find(k) IN IF \E q \in m : q[1] = k THEN p > 0 /\ <<k, slots[p].v>> \in m ELSE p = 0
NoDuplicates == Cardinality({i \in 1..Limit : slots[i].st = "used"}) = Cardinality(m)
Counted == used = Cardinality(m) /\ tombs = Cardinality({i \in 1..Limit : slots[i].st = "dead"})
HalfLoad == Limit > 1 => 2 * (used + tombs) <= Limit
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
===============================================================================
