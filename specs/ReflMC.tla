--------------------------------- MODULE ReflMC ---------------------------------
(* The plugin as a visitor: one declaration a step, in the order the compiler lists them.  It keeps a *)
(* stack of the tag declarations it is inside of, the declaration last visited, and where each tag     *)
(* was recorded; types are built as they are met, tags possibly ahead of their declaration.            *)
EXTENDS Reflect, TLC, Json
CONSTANTS MaxItems, MaxMembers, Deep
VARIABLES prog, db, stack, last, idmap, work
vars == <<prog, db, stack, last, idmap, work>>
(* ---- programs ---- *)
Int_ == <<"i", 32, "s", "int">>
Ref(u) == <<"r", u, "struct", IF u = 1 THEN "s" ELSE "t">>
FieldTypes == {Int_, <<"p", Ref(1)>>, <<"p", Ref(2)>>, <<"a", 2, Int_, 0>>, <<"q", 1024, Int_>>}
Fld(t) == [k |-> "field", n |-> "f", t |-> t, w |-> -1, a |-> <<>>]
Bits_ == [k |-> "field", n |-> "f", t |-> Int_, w |-> 3, a |-> <<<<"aligned", "bits", 64>>>>]
Anon(u, ms) == [k |-> "union", no |-> u, uid |-> u, n |-> "", def |-> 1, m |-> ms, a |-> <<>>, inl |-> 1]
AnonRef(u) == Fld(<<"r", u, "union", "">>)
Singles == {<<Fld(t)>> : t \in FieldTypes} \cup {<<Bits_>>}
           \cup (IF Deep THEN {<<Anon(u, <<Fld(t)>>), AnonRef(u)>> : u \in {7, 8}, t \in {Int_, <<"p", Ref(1)>>}} ELSE {})
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(SubSeq(ss, 2, Len(ss)))
Named(ms) == [i \in 1..Len(ms) |-> IF ms[i].k = "field" THEN [ms[i] EXCEPT !.n = <<"a", "b", "c", "d", "e", "f">>[i]] ELSE ms[i]]
MemberLists == {Named(Flat(ss)) : ss \in UNION {[1..k -> Singles] : k \in 1..MaxMembers}}
Tag_(no, u, def, ms) == [k |-> "struct", no |-> no, uid |-> u, n |-> Ref(u)[4], def |-> def, m |-> ms, a |-> <<>>, inl |-> 0]
Enum_(no) == [k |-> "enum", no |-> no, uid |-> 3, n |-> "e", def |-> 1, a |-> <<>>, inl |-> 0,
              m |-> <<[k |-> "const", n |-> "A", v |-> <<1, 0, 0, 0, 0, 0, 0, 0>>, neg |-> 0, a |-> <<>>], [k |-> "const", n |-> "B", v |-> Rep(255, 8), neg |-> 1, a |-> <<>>]>>]
Var_(no, t) == [k |-> "var", n |-> "v", t |-> t, f |-> <<>>, a |-> <<<<"unused", "none", "">>>>]
Def_(no) == [k |-> "typedef", uid |-> 20 + no, n |-> "T", t |-> <<"p", Ref(1)>>, a |-> <<>>]
Fun_(no) == [k |-> "func", n |-> "g", t |-> <<"p", Ref(2)>>, ps |-> <<<<"x", Int_>>>>, f |-> <<"static">>, a |-> <<>>]
Tops(no) == {Tag_(no, u, 0, <<>>) : u \in {1, 2}} \cup {Tag_(no, u, 1, ms) : u \in {1, 2}, ms \in MemberLists}
            \cup {Enum_(no), Var_(no, <<"p", Ref(2)>>), Def_(no), Fun_(no)}
Once(x, P(_)) == Cardinality({i \in 1..Len(x) : P(x[i])}) <= 1
(* each tag defined once, unnamed unions not repeated, other names once *)
Sane(x) == /\ \A u \in {1, 2} : Once(x, LAMBDA y : IsTag(y) /\ y.uid = u /\ y.def = 1)
           /\ \A k \in {"enum", "var", "typedef", "func"} : Once(x, LAMBDA y : y.k = k)
           /\ \A u \in {7, 8} : Cardinality({<<i, j>> \in (1..Len(x)) \X (1..6) : IsTag(x[i]) /\ j <= Len(x[i].m) /\ IsTag(x[i].m[j]) /\ x[i].m[j].uid = u}) <= 1
(* both tags are declared first, so that no declaration is implicit *)
GoodPrograms == {p \in UNION {[1..n -> Tops(40)] : n \in 1..MaxItems} : Sane(p)}
Numbered(p) == <<Tag_(31, 1, 0, <<>>), Tag_(32, 2, 0, <<>>)>> \o [i \in 1..Len(p) |-> IF IsTag(p[i]) THEN [p[i] EXCEPT !.no = 40 + i] ELSE p[i]]
(* ---- the visitor ---- *)
(* the declaration a reference to a tag stands for: its definition, else the first *)
Target(u) == LET all == AllItems(prog)
                 mine == {x \in all : IsTag(x) /\ x.uid = u}
                 defs == {x \in mine : x.def = 1}
             IN IF defs # {} THEN CHOOSE x \in defs : TRUE ELSE CHOOSE x \in mine : \A y \in mine : x.no <= y.no
New(s, node) == [s EXCEPT !.db = WithNode(@, node)]
End(s) == Count(s.db)
Put(s, id, entry, v) == [s EXCEPT !.db = SetNode(@, id, [N(@, id) EXCEPT ![entry] = v])]
(* <<state, id>> of a tag or type *)
TagNode(s, x) == IF x.no \in DOMAIN s.idmap THEN <<s, s.idmap[x.no]>>
                 ELSE <<[New(s, <<TagKinds[x.k], 0, x.n, 0, 0, 0, <<>>>>) EXCEPT !.idmap = (x.no :> End(s)) @@ @], End(s)>>
RECURSIVE MkType(_, _)
MkType(s, t) ==
    CASE t[1] = "i" -> <<s, Intrinsic(DefaultDb, Class[t[3]], OfInt(t[2]))>>
      [] t[1] = "r" -> TagNode(s, Target(t[2]))
      [] t[1] = "p" -> LET r == MkType(s, t[2]) IN <<New(r[1], <<TPointer, 0, "*", 0, r[2], 0, <<64>>>>), End(r[1])>>
      [] t[1] = "a" -> LET r == MkType(s, t[3]) IN <<New(r[1], <<TArray, 0, "[]", 0, r[2], 0, OfInt(t[2])>>), End(r[1])>>
      [] t[1] = "q" -> LET r == MkType(s, t[3]) IN <<New(r[1], <<TQualifier, t[2], "q", 0, r[2], 0, <<>>>>), End(r[1])>>
RECURSIVE MkAttrs(_, _, _, _)
MkAttrs(s, id, as, prev) ==
    IF as = <<>> THEN s
    ELSE LET x == as[1]
             r == End(s)
             s1 == New(s, <<TAttribute, 0, x[1], 0, 0, 0, <<>>>>)
             s2 == IF x[2] = "bits" THEN Put(New(s1, <<TValue, 0, "", 0, 0, 0, OfInt(x[3])>>), r, 5, End(s1)) ELSE s1
             s3 == IF prev = 0 THEN Put(s2, id, 6, r) ELSE Put(s2, prev, 4, r)
         IN MkAttrs(s3, id, SubSeq(as, 2, Len(as)), r)
RECURSIVE Pop(_, _)
Pop(s, p) == IF s.stack # <<>> /\ s.stack[Len(s.stack)] # p
             THEN Pop([s EXCEPT !.last = s.stack[Len(s.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)], p) ELSE s
Enter(s, p, r) ==
    LET s1 == Pop(s, p)
        s2 == IF s1.last # 0 /\ Next(N(s1.db, s1.last)) = 0 THEN Put(s1, s1.last, 4, r) ELSE s1
    IN IF p # 0 /\ Link(N(s2.db, p)) = 0 THEN Put(s2, p, 5, r) ELSE s2
Node(s, tag, name) == <<New(s, <<tag, 0, name, 0, 0, 0, <<>>>>), End(s)>>
RECURSIVE Params(_, _, _)
Params(s, prev, ps) == IF ps = <<>> THEN s
    ELSE LET r == End(s)  a == Put(New(s, <<TParam, 0, ps[1][1], 0, 0, 0, <<>>>>), prev, 4, r)  t == MkType(a, ps[1][2])
         IN Params(Put(t[1], r, 5, t[2]), r, SubSeq(ps, 2, Len(ps)))
Visit(s, x, p) ==
    CASE IsTag(x) -> LET r == TagNode(s, x)
                         s1 == Enter(r[1], p, r[2])
                         s2 == IF x.k = "enum" THEN Put(s1, r[2], 7, OfInt(8 * EnumOctets(x))) ELSE s1
                     IN <<[MkAttrs(s2, r[2], x.a, 0) EXCEPT !.stack = Append(@, r[2]), !.last = 0], r[2]>>
      [] x.k = "func" -> LET r == Node(s, TFunction, x.n)
                             s1 == Put(Enter(r[1], p, r[2]), r[2], 2, FuncProps(x))
                             pr == End(s1)
                             s2 == Put(New(s1, <<TParam, POut, "", 0, 0, 0, <<>>>>), r[2], 5, pr)
                             t == MkType(s2, x.t)
                         IN <<[Params(Put(t[1], pr, 5, t[2]), pr, x.ps) EXCEPT !.last = r[2]], r[2]>>
      [] OTHER -> LET tag == IF x.k = "typedef" THEN TTypedef ELSE IF x.k = "const" THEN TConstant ELSE TField
                      r == Node(s, tag, x.n)
                      s1 == Enter(r[1], p, r[2])
                      t == IF x.k = "const" THEN MkType(s1, <<"i", 32, "s">>) ELSE MkType(s1, x.t)
                      s2 == Put(t[1], r[2], 5, t[2])
                      s3 == IF x.k = "const" THEN Put(s2, r[2], 7, Norm(x.v)) ELSE s2
                      s4 == IF x.k = "field" /\ x.w >= 0 THEN Put(Put(s3, r[2], 2, Bit(BBitfield)), r[2], 7, OfInt(x.w)) ELSE s3
                      s5 == IF x.k = "var" THEN Put(s4, r[2], 2, VarProps(x)) ELSE s4
                  IN <<[MkAttrs(s5, r[2], x.a, 0) EXCEPT !.last = r[2]], r[2]>>
MInit == /\ prog \in {Numbered(p) : p \in GoodPrograms}
         /\ db = [nodes |-> Append(DefaultDb.nodes, <<TSource, 0, "x.c", 0, 0, 0, <<>>>>), root |-> FirstUser]
         /\ stack = <<>> /\ last = 0 /\ idmap = <<>>
         /\ work = [i \in 1..Len(prog) |-> <<prog[i], FirstUser>>]
MNext == /\ work # <<>>
         /\ LET x == work[1][1]
                r == Visit([db |-> db, stack |-> stack, last |-> last, idmap |-> idmap], x, work[1][2])
            IN /\ db' = r[1].db /\ stack' = r[1].stack /\ last' = r[1].last /\ idmap' = r[1].idmap
               /\ work' = (IF IsTag(x) THEN [i \in 1..Len(x.m) |-> <<x.m[i], r[2]>>] ELSE <<>>) \o SubSeq(work, 2, Len(work))
         /\ UNCHANGED prog
MSpec == MInit /\ [][MNext]_vars
Mirror == work = <<>> => Mirrors(db, "x.c", prog)
(* everything visited is recorded, nothing twice *)
Sorted == work = <<>> => \A i \in Ids(db) : Cardinality({j \in Reached(db) : TagOf(db, j) \in ContainerKinds /\ \E k \in 1..Len(Children(db, j)) : Children(db, j)[k] = i}) <= 1
Emit == Len(work) = Len(prog) /\ stack = <<>> /\ last = 0 => PrintT(<<"SCRIPT", ToJson(prog)>>)
===============================================================================
