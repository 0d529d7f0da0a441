-------------------------------- MODULE QueryMC --------------------------------
(* Member queries on every container kind over every short list of members, at every limit.          *)
EXTENDS Db, TLC, Json
CONSTANTS MaxList, ListKinds
VARIABLES kinds, con, fn, limit
vars == <<kinds, con, fn, limit>>
Cons == {TArchive, TSource, TSet, TEnum, TStruct, TUnion, TFunction, TField, TAlias}
Fns == DOMAIN Queries
First == FirstUser
(* the container is declaration 23, its members follow; a second list hangs on the last member's next *)
TheDb == [nodes |-> DefaultDb.nodes \o <<<<con, 0, "c", 0, IF kinds = <<>> THEN 0 ELSE First + 1, 0, <<>>>>>>
                    \o [i \in 1..Len(kinds) |-> <<kinds[i], 0, "m", IF i < Len(kinds) THEN First + i + 1 ELSE 0, 0, 0, <<1>>>>],
          root |-> First]
MInit == con \in Cons /\ kinds \in UNION {[1..n -> ListKinds] : n \in 0..MaxList} /\ fn = "" /\ limit = 0
MNext == fn = "" /\ fn' \in Fns /\ limit' \in 0..(MaxList + 1) /\ UNCHANGED <<kinds, con>>
MSpec == MInit /\ [][MNext]_vars
M == Members(TheDb, fn, First)
Exactly == fn # "" /\ Allowed(TheDb, fn, First) =>
    /\ \A i \in 1..Len(M) : i > 1 => M[i - 1] < M[i]
    /\ {M[i] : i \in 1..Len(M)} = {First + i : i \in {j \in 1..Len(kinds) : kinds[j] \in Queries[fn][2]}}
    /\ Len(Take(M, limit)) = (IF limit < Len(M) THEN limit ELSE Len(M))
    /\ Take(M, limit) = SubSeq(M, 1, Len(Take(M, limit)))
(* a cursor with a counter, as an implementation walks the list *)
RECURSIVE Walk(_, _, _)
Walk(i, count, out) == IF i > Len(kinds) THEN <<count, out>>
    ELSE IF kinds[i] \in Queries[fn][2] THEN Walk(i + 1, count + 1, IF count < limit THEN Append(out, First + i) ELSE out)
    ELSE Walk(i + 1, count, out)
WalkAgrees == fn # "" /\ Allowed(TheDb, fn, First) => Walk(1, 0, <<>>) = <<Len(M), Take(M, limit)>>
Emit == fn # "" => PrintT(<<"SCRIPT", ToJson(<<con, kinds, fn, limit>>)>>)
===============================================================================
