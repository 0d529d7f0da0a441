--------------------------------- MODULE DbShapes ---------------------------------
(* Small databases given by shape: a source with up to a few structs, unions and typedefs whose       *)
(* members point at each other.  A shape is a sequence of declarations <<kind, name, members>>;        *)
(* a member is a type: <<"i", b>> builtin, <<"p", k>> pointer to the k-th declaration, <<"v", k>> the   *)
(* k-th declaration by value, <<"n", t>> an unnamed union holding t, <<"a", t>> a member with an       *)
(* attribute; a typedef has one member, a plain type.                                                  *)
EXTENDS Db
Blank(tag, name) == <<tag, 0, name, 0, 0, 0, <<>>>>
RECURSIVE AddType(_, _, _)
RECURSIVE AddMembers(_, _, _, _)
TopId(k) == FirstUser + k
(* <<db, id>> *)
AddField(db, t) ==
    IF t[1] = "a" THEN LET f == Count(db) IN
        AddType(WithNode(WithNode(db, <<TField, 0, "f", 0, 0, f + 1, <<>>>>), Blank(TAttribute, "packed")), f, t[2])
    ELSE AddType(WithNode(db, Blank(TField, "f")), Count(db), t)
(* give declaration `at` the type t *)
AddType(db, at, t) ==
    LET to(d, x) == SetNode(d, at, [N(d, at) EXCEPT ![5] = x]) IN
    CASE t[1] = "i" -> to(db, t[2])
      [] t[1] = "v" -> to(db, TopId(t[2]))
      [] t[1] = "p" -> LET p == Count(db) IN to(WithNode(db, <<TPointer, 0, "", 0, TopId(t[2]), 0, <<64>>>>), p)
      [] OTHER -> LET u == Count(db) IN to(AddMembers(WithNode(db, Blank(TUnion, "")), u, <<t[2]>>, 1), u)
(* members from the i-th on, linked into the list of `of` *)
AddMembers(db, of, ms, i) ==
    IF i > Len(ms) THEN db
    ELSE LET f == Count(db)
             d1 == AddField(db, ms[i])
             RECURSIVE LastOf(_)
             LastOf(x) == IF Next(N(d1, x)) = 0 THEN x ELSE LastOf(Next(N(d1, x)))
             d2 == IF i = 1 THEN SetNode(d1, of, [N(d1, of) EXCEPT ![5] = f])
                   ELSE LET q == LastOf(Link(N(d1, of))) IN SetNode(d1, q, [N(d1, q) EXCEPT ![4] = f])
         IN AddMembers(d2, of, ms, i + 1)
RECURSIVE AddTops(_, _, _)
AddTops(db, sh, k) == IF k > Len(sh) THEN db
    ELSE AddTops(IF sh[k][1] = TTypedef THEN AddType(db, TopId(k), sh[k][3][1]) ELSE AddMembers(db, TopId(k), sh[k][3], 1), sh, k + 1)
DbOf(sh, name) ==
    LET src == <<TSource, 0, name, 0, IF sh = <<>> THEN 0 ELSE TopId(1), 0, <<>>>>
        tops == [k \in 1..Len(sh) |-> <<sh[k][1], 0, sh[k][2], IF k < Len(sh) THEN TopId(k + 1) ELSE 0, 0, 0, <<>>>>]
    IN AddTops([nodes |-> DefaultDb.nodes \o <<src>> \o tops, root |-> FirstUser], sh, 1)
UserNodes(db) == SubSeq(db.nodes, FirstUser + 1, Count(db))
===============================================================================
