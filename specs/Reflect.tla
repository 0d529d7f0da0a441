-------------------------------- MODULE Reflect --------------------------------
(* What the plugin must record of a C source file.  A program is a list of items in source order:     *)
(*   [k: struct | union | enum, no, uid, n, def, m, a]   a tag declaration, m its members in order     *)
(*   [k: field, n, t, w, a]      w: bit-field width or -1                                              *)
(*   an enum may have ut: <<width, class>> of the type written after its name                          *)
(*   [k: const, n, v, neg, a]    v: value as eight octets                                              *)
(*   [k: typedef, uid, n, t, a]  [k: var, n, t, f, a]  [k: func, n, t, ps, f, a]                       *)
(* Types: <<i, width, class>>, <<p, T>>, <<a, count, T, static>>, <<A, octets, T>> huge, <<ia, T>> unspecified bound,          *)
(*   <<va, T, static>> variable bound, <<q, props, T>>, <<r, uid, kind, name>>, <<t, uid>> typedef,     *)
(*   <<fn>> any function type.                                                                         *)
EXTENDS Db
LOCAL INSTANCE TLC
PStatic == Bit(13)  PExternC == Bit(14)  PInline == Bit(15)  PNoreturn == Bit(16)  PGlobal == Bit(18)  POut == Bit(23)  PVla == Bit(24)
TagKinds == [struct |-> TStruct, union |-> TUnion, enum |-> TEnum]
IsTag(x) == x.k \in {"struct", "union", "enum"}
Has(x, f) == \E i \in 1..Len(x.f) : x.f[i] = f

(* every item of a program, whatever it is nested in *)
RECURSIVE AllItems(_)
AllItems(items) == UNION {{items[i]} \cup (IF IsTag(items[i]) THEN AllItems(items[i].m) ELSE {}) : i \in 1..Len(items)}
(* what each typedef stands for *)
Typedefs(prog) == LET tds == {x \in AllItems(prog) : x.k = "typedef"} IN
                  [u \in {x.uid : x \in tds} |-> (CHOOSE x \in tds : x.uid = u).t]

(* tag declarations and where they were recorded: <<uid, defined, id>> *)
RECURSIVE Recorded(_, _, _)
Recorded(db, items, ids) ==
    UNION {IF i <= Len(ids) /\ IsTag(items[i])
           THEN {<<items[i].uid, items[i].def, ids[i]>>} \cup Recorded(db, items[i].m, Children(db, ids[i]))
           ELSE IF i <= Len(ids) /\ items[i].k = "typedef" THEN {<<items[i].uid, 1, ids[i]>>} ELSE {} : i \in 1..Len(items)}

(* ---- integer types of enums: from the values ---- *)
Signed_(e) == \E i \in 1..Len(e.m) : e.m[i].neg = 1
(* does the value fit a signed or unsigned integer of w octets *)
FitsIn(v, neg, w, signed) ==
    IF neg = 1 THEN signed /\ (\A k \in (w + 1)..8 : v[k] = 255) /\ v[w] >= 128
    ELSE (\A k \in (w + 1)..8 : v[k] = 0) /\ (signed => v[w] < 128)
AllFit(e, w) == LET sg == TLCEval(Signed_(e)) IN \A i \in 1..Len(e.m) : FitsIn(e.m[i].v, e.m[i].neg, w, sg)
IsPacked(e) == \E i \in 1..Len(e.a) : e.a[i][1] = "packed"
EnumOctets(e) == LET ws == IF IsPacked(e) THEN {1, 2, 4, 8} ELSE {4, 8}
                     ok == {w \in ws : AllFit(e, w)}
                 IN CHOOSE w \in ok : \A x \in ok : w <= x
EnumType(e) == IF "ut" \in DOMAIN e THEN <<"i", e.ut[1], e.ut[2]>>      \* the type written after its name
               ELSE <<"i", 8 * EnumOctets(e), IF Signed_(e) THEN "s" ELSE "u">>

(* ---- types ---- *)
Class == [s |-> Bit(0) + Bit(3), u |-> Bit(0) + Bit(4), f |-> Bit(1), c |-> Bit(2)]
KindBits(p) == <<HasBit(p, 0), HasBit(p, 1), HasBit(p, 2), HasBit(p, 3), HasBit(p, 4)>>
BuiltinIs(db, id, width, class) ==
    LET n == N(db, id) IN
    /\ id <= NBuiltin /\ Tag(n) = TIntrinsic
    /\ CASE class = "v" -> Name(n) = "void"
         [] class = "b" -> Name(n) = "bool"
         [] OTHER -> Qty(n) = OfInt(width) /\ KindBits(Props(n)) = KindBits(Class[class])
RECURSIVE Bare(_)
Bare(t) == IF t[1] = "q" THEN Bare(t[3]) ELSE t
RECURSIVE TypeIs(_, _, _, _, _)
TypeIs(db, tds, refs, t, id) ==
    LET n == N(db, id)  k == t[1] IN
    CASE k = "i" -> BuiltinIs(db, id, t[2], t[3])
      [] k = "any" -> TRUE                                      \* a type built into the compiler
      [] k = "fn" -> BuiltinIs(db, id, 0, "v")
      [] k = "p" -> Tag(n) = TPointer /\ Qty(n) = <<64>> /\ Props(n) = 0 /\ Link(n) # 0 /\ TypeIs(db, tds, refs, t[2], Link(n))
      [] k = "a" -> Tag(n) = TArray /\ Qty(n) = OfInt(t[2]) /\ Props(n) = (IF t[4] = 1 THEN PStatic ELSE 0) /\ Link(n) # 0 /\ TypeIs(db, tds, refs, t[3], Link(n))
      [] k = "A" -> Tag(n) = TArray /\ Qty(n) = Norm(t[2]) /\ Props(n) = 0 /\ Link(n) # 0 /\ TypeIs(db, tds, refs, t[3], Link(n))
      [] k = "ia" -> Tag(n) = TArray /\ Qty(n) = <<>> /\ Props(n) = 0 /\ Link(n) # 0 /\ TypeIs(db, tds, refs, t[2], Link(n))
      [] k = "va" -> Tag(n) = TArray /\ Qty(n) = <<>> /\ Props(n) = PVla + (IF t[3] = 1 THEN PStatic ELSE 0) /\ Link(n) # 0 /\ TypeIs(db, tds, refs, t[2], Link(n))
      [] k = "q" -> Tag(n) = TQualifier /\ Props(n) = t[2] /\ Link(n) # 0 /\ TypeIs(db, tds, refs, t[3], Link(n))
      (* the definition if there is one, else a declaration *)
      [] k = "r" -> LET mine == {x \in refs : x[1] = t[2]}
                        defs == {x \in mine : x[2] = 1}
                    IN /\ Tag(n) = TagKinds[t[3]] /\ Name(n) = t[4]
                       /\ (defs # {} => \E x \in defs : x[3] = id)
                       /\ (mine # {} => \E x \in mine : x[3] = id)
      (* the typedef itself or what it stands for; qualifiers written in the typedef may stay there *)
      [] k = "t" -> LET d == tds[t[2]] IN
                    \/ Tag(n) = TTypedef /\ <<t[2], 1, id>> \in refs
                    \/ TypeIs(db, tds, refs, d, id)
                    \/ d[1] = "q" /\ TypeIs(db, tds, refs, Bare(d), id)

(* ---- attributes: <<name, kind of argument, argument>> ---- *)
AttrIs(db, x, id) ==
    LET n == N(db, id) IN
    /\ Tag(n) = TAttribute /\ Name(n) = x[1]
    /\ IF x[2] = "none" THEN Link(n) = 0
       ELSE LET v == N(db, Link(n)) IN
            /\ Tag(v) = TValue
            /\ IF x[2] = "bits" THEN Qty(v) = OfInt(x[3]) ELSE Name(v) = x[3]
AttrsAre(db, as, id) == LET ids == Attributes(db, id) IN Len(ids) = Len(as) /\ \A i \in 1..Len(as) : AttrIs(db, as[i], ids[i])

(* ---- items ---- *)
RECURSIVE ItemIs(_, _, _, _, _)
ListIs(db, tds, refs, items, ids) == Len(items) = Len(ids) /\ \A i \in 1..Len(items) : ItemIs(db, tds, refs, items[i], ids[i])
EnumIs(db, e, id) ==
    LET n == N(db, id)  ids == TLCEval(Children(db, id))  fixed == "ut" \in DOMAIN e  et == TLCEval(IF e.m = <<>> /\ ~fixed THEN <<"i", 32, "u">> ELSE EnumType(e)) IN
    /\ (fixed => Qty(n) = OfInt(et[2]))
    /\ IF e.def = 0 THEN Link(n) = 0
       ELSE
         /\ (e.m # <<>> => Qty(n) = OfInt(et[2]))
         /\ Len(ids) = Len(e.m)
         /\ \A i \in 1..Len(ids) : LET c == N(db, ids[i]) IN
              /\ Tag(c) = TConstant /\ Name(c) = e.m[i].n /\ Qty(c) = Norm(e.m[i].v) /\ AttrsAre(db, e.m[i].a, ids[i])
              /\ BuiltinIs(db, Link(c), et[2], et[3])
FuncProps(f) == (IF Has(f, "static") THEN PStatic ELSE PGlobal + PExternC)
                + (IF Has(f, "inline") THEN PInline ELSE 0) + (IF Has(f, "noreturn") THEN PNoreturn ELSE 0)
VarProps(v) == (IF Has(v, "static") THEN 0 ELSE PExternC) + (IF Has(v, "thread") THEN 0 ELSE PStatic)
ParamIs(db, tds, refs, name, t, props, id) ==
    LET n == N(db, id) IN Tag(n) = TParam /\ Name(n) = name /\ Props(n) = props /\ Link(n) # 0 /\ TypeIs(db, tds, refs, t, Link(n))
ItemIs(db, tds, refs, x, id) ==
    LET n == N(db, id) IN
    /\ Name(n) = x.n /\ AttrsAre(db, x.a, id)
    /\ CASE x.k \in {"struct", "union"} -> Tag(n) = TagKinds[x.k] /\ Props(n) = 0 /\ ListIs(db, tds, refs, x.m, Children(db, id))
         [] x.k = "enum" -> Tag(n) = TEnum /\ EnumIs(db, x, id)
         [] x.k = "field" -> /\ Tag(n) = TField /\ Link(n) # 0 /\ TypeIs(db, tds, refs, x.t, Link(n))
                             /\ IF x.w >= 0 THEN HasBit(Props(n), BBitfield) /\ Qty(n) = OfInt(x.w) ELSE Props(n) = 0 /\ Qty(n) = <<>>
         [] x.k = "typedef" -> Tag(n) = TTypedef /\ Link(n) # 0 /\ TypeIs(db, tds, refs, x.t, Link(n))
         [] x.k = "var" -> Tag(n) = TField /\ Props(n) = VarProps(x) /\ Link(n) # 0 /\ TypeIs(db, tds, refs, x.t, Link(n))
         [] x.k = "func" -> LET ps == Children(db, id) IN
              /\ Tag(n) = TFunction /\ Props(n) = FuncProps(x)
              /\ Len(ps) = Len(x.ps) + 1
              /\ ParamIs(db, tds, refs, "", x.t, POut, ps[1])
              /\ \A i \in 1..Len(x.ps) : ParamIs(db, tds, refs, x.ps[i][1], x.ps[i][2], 0, ps[i + 1])
Mirrors(db, file, prog) ==
    LET r == N(db, db.root)
        refs == TLCEval(Recorded(db, prog, Children(db, db.root)))
        tds == TLCEval(Typedefs(prog))
    IN /\ Closed(db) /\ Tag(r) = TSource /\ Name(r) = file
       /\ SubSeq(db.nodes, 1, FirstUser) = DefaultDb.nodes
       /\ ListIs(db, tds, refs, prog, Children(db, db.root))
===============================================================================
