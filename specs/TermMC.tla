---------------------------------- MODULE TermMC ----------------------------------
(* Structural identity.  For every small database: renumbering its declarations changes no structure; *)
(* changing one entry of a declaration changes the structure of exactly the declarations above it;    *)
(* structures of plain declarations are equal exactly when no path tells them apart; and one digest   *)
(* pass with a memory (as an implementation does it) computes the structure of every plain one.       *)
EXTENDS DbShapes, TLC, Json
CONSTANTS Builtins, MaxDecls, MaxMembers, Perms
VARIABLES sh, mode
vars == <<sh, mode>>
Types(n) == {<<"i", b>> : b \in Builtins} \cup {<<"p", k>> : k \in 1..n} \cup {<<"n", <<"p", k>>>> : k \in 1..n} \cup {<<"a", <<"i", 9>>>>}
Simple(n) == {<<"i", 9>>} \cup {<<"v", k>> : k \in 1..n}
MemberLists(n) == UNION {[1..k -> Types(n)] : k \in 1..MaxMembers}
Decls_(n) == {<<t, nm, ms>> : t \in {TStruct}, nm \in {"s", "t"}, ms \in MemberLists(n)} \cup {<<TTypedef, "s", <<m>>>> : m \in Simple(n)}
(* a typedef of itself is no C *)
Sane(x) == \A k \in 1..Len(x) : x[k][1] = TTypedef => x[k][3][1] # <<"v", k>> /\
              (x[k][3][1][1] = "v" => x[x[k][3][1][2]][1] = TStruct)
MInit == sh \in {x \in UNION {[1..n -> Decls_(n)] : n \in 1..MaxDecls} : Sane(x)} /\ mode = "db"
MNext == mode = "db" /\ mode' = "done" /\ UNCHANGED sh
MSpec == MInit /\ [][MNext]_vars
D == TLCEval(DbOf(sh, "x.c"))
T(pl, x) == Term(D, x, pl[x], FALSE)
(* those whose structure is all below them *)
Whole(pl) == {x \in DOMAIN pl : pl[x] = {}}
(* renumbering: swap two user declarations *)
Swap(db, a, b) ==
    LET r(x) == IF x = a THEN b ELSE IF x = b THEN a ELSE x
        mv(n) == [n EXCEPT ![4] = r(@), ![5] = r(@), ![6] = r(@)]
    IN [nodes |-> [i \in 1..Count(db) |-> mv(N(db, r(i - 1)))], root |-> r(db.root)]
Last == Count(D) - 1
Renumbered == LET pl == TLCEval(Plain(D)) IN
    \A a \in {FirstUser, FirstUser + 1}, b \in (IF Perms THEN (FirstUser + 1)..Last ELSE {Last}) : LET E == TLCEval(Swap(D, a, b)) IN
    LET r(x) == IF x = a THEN b ELSE IF x = b THEN a ELSE x IN
    \A x \in DOMAIN pl : Term(E, r(x), {r(o) : o \in pl[x]}, FALSE) = T(pl, x)
Sensitive == LET pl == TLCEval(Plain(D)) IN
    \A y \in Reached(D) : y >= FirstUser =>
    \A f \in {2, 3, 7} : LET E == TLCEval(SetNode(D, y, [N(D, y) EXCEPT ![f] = IF f = 2 THEN 1024 ELSE IF f = 3 THEN "zz" ELSE <<7>>])) IN
        \A x \in Whole(pl) : (Term(E, x, {}, FALSE) # T(pl, x)) <=> (y \in ReachedFrom(D, x))
(* two recursive declarations of one name may unroll into each other; C has only one of each name *)
Apart == \A j, k \in 1..Len(sh) : j # k => sh[j][2] # sh[k][2]
TermIsEquality == LET pl == TLCEval(Plain(D)) IN
    \A x, y \in Whole(pl) : /\ (T(pl, x) = T(pl, y) => Equal(D, x, D, y))
                                  /\ (Apart /\ Equal(D, x, D, y) => T(pl, x) = T(pl, y))
(* one pass, depth first from the root: digests of finished declarations are remembered, a reference to *)
(* an unfinished one counts by kind and name                                                            *)
RECURSIVE Pass(_, _, _)
RECURSIVE PassList(_, _, _)
PassList(ids, open, memo) == IF ids = <<>> THEN memo ELSE PassList(SubSeq(ids, 2, Len(ids)), open, Pass(ids[1], open, memo))
Digest(id, open, memo) ==
    LET n == N(D, id)
        ref(x) == <<memo[x]>>
        links == IF Link(n) = 0 THEN <<>>
                 ELSE IF Tag(n) \in ContainerKinds THEN [k \in 1..Len(Children(D, id)) |-> memo[Children(D, id)[k]]]
                 ELSE IF Link(n) \in open THEN <<BackRef(N(D, Link(n)))>> ELSE <<memo[Link(n)]>>
    IN <<Tag(n), Name(n), Props(n), Qty(n), [k \in 1..Len(Attributes(D, id)) |-> memo[Attributes(D, id)[k]]], links>>
Pass(id, open, memo) ==
    IF id \in DOMAIN memo \/ id \in open THEN memo
    ELSE LET o == open \cup {id}
             m == PassList(Targets(D, id), o, memo)
         IN m @@ (id :> Digest(id, o, m))
OnePass == LET m == TLCEval(Pass(D.root, {}, <<>>))  pl == TLCEval(Plain(D)) IN DOMAIN m = Reached(D) /\ \A x \in DOMAIN pl : m[x] = T(pl, x)
Emit == mode = "db" => PrintT(<<"SCRIPT", ToJson([root |-> D.root, nodes |-> UserNodes(D)])>>)
===============================================================================
