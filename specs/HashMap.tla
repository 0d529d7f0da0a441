-------------------------------- MODULE HashMap --------------------------------
(* Finite maps held in named variables.  maps[h] is a set of <<key, value>> pairs; status says   *)
(* whether h exists (1), not (0), or was moved from (2: may only be assigned to or dropped).      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES maps, status
mvars == <<maps, status>>
Handles == {"a", "b", "c"}
Keys(m) == {p[1] : p \in m}
Has(m, k) == \E p \in m : p[1] = k
Val(m, k) == (CHOOSE p \in m : p[1] = k)[2]
With(m, k, v) == {p \in m : p[1] # k} \cup {<<k, v>>}
Without(m, k) == {p \in m : p[1] # k}
HInit == maps = [h \in Handles |-> {}] /\ status = [h \in Handles |-> 0]
Live(h) == status[h] = 1
Put(h, m) == maps' = [maps EXCEPT ![h] = m]
New(h) == Put(h, {}) /\ status' = [status EXCEPT ![h] = 1]
Drop(h) == Put(h, {}) /\ status' = [status EXCEPT ![h] = 0]
Insert(h, k, v, ret) == Live(h) /\ Put(h, With(maps[h], k, v)) /\ ret = <<k, v>> /\ UNCHANGED status
(* subscript of an absent key makes it present with value zero *)
Subscript(h, k, ret) == Live(h) /\ UNCHANGED status /\
    IF Has(maps[h], k) THEN ret = Val(maps[h], k) /\ UNCHANGED maps
    ELSE ret = 0 /\ Put(h, With(maps[h], k, 0))
SetVal(h, k, v) == Live(h) /\ Put(h, With(maps[h], k, v)) /\ UNCHANGED status
Erase(h, k) == Live(h) /\ Put(h, Without(maps[h], k)) /\ UNCHANGED status
(* many at once: keys first, first + stride, ... *)
Fill(h, n, first, stride) == Live(h) /\ UNCHANGED status /\
    LET ks == {first + i * stride : i \in 0..(n - 1)} IN Put(h, {p \in maps[h] : p[1] \notin ks} \cup {<<first + i * stride, i>> : i \in 0..(n - 1)})
Empty(h, n, first, stride) == Live(h) /\ UNCHANGED status /\ LET ks == {first + i * stride : i \in 0..(n - 1)} IN Put(h, {p \in maps[h] : p[1] \notin ks})
Clear(h) == Live(h) /\ Put(h, {}) /\ UNCHANGED status
Copy(h, to) == Live(h) /\ Put(to, maps[h]) /\ status' = [status EXCEPT ![to] = 1]
Move(h, to) == Live(h) /\ IF h = to THEN UNCHANGED mvars
               ELSE maps' = [maps EXCEPT ![to] = maps[h], ![h] = {}] /\ status' = [status EXCEPT ![to] = 1, ![h] = 2]
Equal(h, to, ret, ne) == Live(h) /\ Live(to) /\ UNCHANGED mvars /\ ret = (IF maps[h] = maps[to] THEN 1 ELSE 0) /\ ne = 1 - ret
(* what an observer sees of one map: size, iteration and lookups *)
Observed(o, h) ==
    /\ o.live = status[h]
    /\ o.live = 1 =>
         /\ o.size = Cardinality(maps[h])
         /\ Len(o.items) = o.size /\ o.count = o.size
         /\ {o.items[i] : i \in 1..Len(o.items)} = maps[h]
         /\ \A i \in 1..Len(o.found) : LET k == o.found[i][1] IN
               o.found[i][2] = (IF Has(maps[h], k) THEN Val(maps[h], k) ELSE -1)
===============================================================================
