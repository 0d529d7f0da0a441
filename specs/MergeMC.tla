---------------------------------- MODULE MergeMC ----------------------------------
(* Merging: the copy algorithm over every pair of small databases.  A declaration already stored is   *)
(* found by its digest (the structure as seen where it was first reached) and, with Verify, shared    *)
(* only when it is really equal; without it recursive declarations that differ further up are         *)
(* confused.                                                                                          *)
EXTENDS DbShapes, TLC, Json
CONSTANTS Builtins, MaxDecls, MaxMembers, Nested, Verify, Lists
VARIABLES shapes, order, result
vars == <<shapes, order, result>>
Types(n) == {<<"i", b>> : b \in Builtins} \cup {<<"p", k>> : k \in 1..n} \cup (IF Nested THEN {<<"n", <<"p", k>>>> : k \in 1..n} ELSE {})
MemberLists(n) == UNION {[1..k -> Types(n)] : k \in 1..MaxMembers}
Decls_(n) == {<<TStruct, nm, ms>> : nm \in {"s", "t"}, ms \in MemberLists(n)} \cup {<<TTypedef, "u", <<<<"v", 1>>>>>>}
Apart(x) == \A j, k \in 1..Len(x) : j # k => x[j][2] # x[k][2]
Sane(x) == x[1][1] = TStruct /\ Apart(x)
AllShapes == {x \in UNION {[1..n -> Decls_(n)] : n \in 1..MaxDecls} : Sane(x)}
(* lists of sources are written as numbers: 121 is the first, the second, the first again *)
Digits(k) == LET RECURSIVE F(_) F(x) == IF x = 0 THEN <<>> ELSE Append(F(x \div 10), x % 10) IN F(k)
None == [nodes |-> <<>>, root |-> 0]
MInit == shapes \in AllShapes \X AllShapes /\ order \in {Digits(k) : k \in Lists} /\ result = None
S(k) == TLCEval(DbOf(shapes[k], IF k = 1 THEN "x.c" ELSE "y.c"))

(* structure as reached first, depth first from the root *)
RECURSIVE Pass(_, _, _, _)
RECURSIVE PassList(_, _, _, _)
PassList(D, ids, open, memo) == IF ids = <<>> THEN memo ELSE PassList(D, SubSeq(ids, 2, Len(ids)), open, Pass(D, ids[1], open, memo))
Pass(D, id, open, memo) ==
    IF id \in DOMAIN memo \/ id \in open THEN memo
    ELSE LET n == N(D, id)
             o == open \cup {id}
             m == PassList(D, Targets(D, id), o, memo)
             links == IF Link(n) = 0 THEN <<>>
                      ELSE IF Tag(n) \in ContainerKinds THEN [k \in 1..Len(Children(D, id)) |-> m[Children(D, id)[k]]]
                      ELSE IF Link(n) \in o THEN <<BackRef(N(D, Link(n)))>> ELSE <<m[Link(n)]>>
         IN m @@ (id :> <<Tag(n), Name(n), Props(n), Qty(n), [k \in 1..Len(Attributes(D, id)) |-> m[Attributes(D, id)[k]]], links>>)
Digests(D) == Pass(D, D.root, {}, <<>>)

(* copying; st: [db, map (digest -> stored), done (source id -> stored)] *)
RECURSIVE Copy(_, _, _, _, _)
RECURSIVE CopyList(_, _, _, _, _, _, _)
(* append copies of ids to the list hanging at entry f (5 members, 6 attributes) of r *)
CopyList(st, D, h, ids, r, f, last) ==
    IF ids = <<>> THEN st
    ELSE LET c == Copy(st, D, h, ids[1], FALSE)
             at == IF last = 0 THEN r ELSE last
             e == IF last = 0 THEN f ELSE 4
         IN CopyList([c[1] EXCEPT !.db = SetNode(@, at, [N(@, at) EXCEPT ![e] = c[2]])], D, h, SubSeq(ids, 2, Len(ids)), r, f, c[2])
Copy(st, D, h, id, child) ==
    LET n == N(D, id)
        cand == IF id \in DOMAIN st.done THEN st.done[id]
                ELSE IF h[id] \in DOMAIN st.map /\ (~Verify \/ Equal(st.db, st.map[h[id]], D, id)) THEN st.map[h[id]] ELSE 0
    IN
    IF Tag(n) = TIntrinsic THEN <<st, id>>
    ELSE IF Tag(n) \in SharedKinds /\ cand # 0
         THEN IF child THEN <<st, cand>>
              ELSE <<[st EXCEPT !.db = WithNode(@, <<TAlias, 0, Name(n), 0, cand, 0, <<>>>>)], Count(st.db)>>
    ELSE LET r == Count(st.db)
             s1 == [db |-> WithNode(st.db, [n EXCEPT ![4] = 0, ![5] = 0, ![6] = 0]),
                    map |-> (h[id] :> r) @@ st.map, done |-> IF Tag(n) \in SharedKinds THEN (id :> r) @@ st.done ELSE st.done]
             s2 == CopyList(s1, D, h, Attributes(D, id), r, 6, 0)
         IN IF Link(n) = 0 THEN <<s2, r>>
            ELSE IF Tag(n) \in ContainerKinds THEN <<CopyList(s2, D, h, Children(D, id), r, 5, 0), r>>
            ELSE LET c == Copy(s2, D, h, Link(n), TRUE) IN <<[c[1] EXCEPT !.db = SetNode(@, r, [N(@, r) EXCEPT ![5] = c[2]])], r>>
RECURSIVE MergeAll(_, _, _)
MergeAll(st, i, last) ==
    IF i > Len(order) THEN st
    ELSE LET D == S(order[i])
             c == Copy([st EXCEPT !.done = <<>>], D, TLCEval(Digests(D)), D.root, FALSE)
             at == IF last = 0 THEN FirstUser ELSE last
         IN MergeAll([c[1] EXCEPT !.db = SetNode(@, at, [N(@, at) EXCEPT ![IF last = 0 THEN 5 ELSE 4] = c[2]])], i + 1, c[2])
Merged == MergeAll([db |-> [nodes |-> DefaultDb.nodes \o <<Blank(TArchive, "m")>>, root |-> FirstUser], map |-> <<>>, done |-> <<>>], 1, 0).db
MNext == result = None /\ result' = Merged /\ UNCHANGED <<shapes, order>>
MSpec == MInit /\ [][MNext]_vars
Done == result # None
Preserved == Done => LET ch == Children(result, result.root) IN
    Closed(result) /\ Len(ch) = Len(order) /\ \A i \in 1..Len(order) : LET D == S(order[i]) IN Equal(result, ch[i], D, D.root)
Once == Done => LET R == {s \in PlainSet(result) : TagOf(result, s) \in SharedKinds /\ Name(N(result, s)) # ""} IN
    Cardinality({Term(result, s, {}, TRUE) : s \in R}) = Cardinality(R)
(* merging adds nothing when the sources are the same *)
NothingNew == Done /\ shapes[1] = shapes[2] /\ order = <<1, 2>> =>
    \A y \in Reached(result) : TagOf(result, y) = TStruct => \E x \in ReachedFrom(result, Children(result, result.root)[1]) : x = y
Emit == result = None => PrintT(<<"SCRIPT", ToJson(<<UserNodes(S(1)), UserNodes(S(2)), order>>)>>)
===============================================================================
