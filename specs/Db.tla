----------------------------------- MODULE Db -----------------------------------
(* A reflection database: a table of declarations (identifier 0 is the null declaration) and a root. *)
(* Declarations are tuples <<tag, props, name, next, link, attr, quantity>>; quantities are naturals *)
(* of up to 64 bits (octet sequences), names are opaque texts.                                       *)
EXTENDS Bytes, FiniteSets
LOCAL INSTANCE TLC

(* kinds *)
TNone == 0  TIntrinsic == 1  TTypedef == 2  TSet == 3  TEnum == 4  TStruct == 5  TUnion == 6  TField == 7
TArray == 8  TPointer == 9  TConstant == 10  TFunction == 11  TParam == 12  TQualifier == 13
TAttribute == 14  TValue == 15  TArchive == 16  TSource == 17  TAlias == 18
KindNames == <<"none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer",
               "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias">>
TypeKinds == {TTypedef, TIntrinsic, TSet, TEnum, TStruct, TUnion, TArray, TPointer, TQualifier}
ContainerKinds == {TArchive, TSource, TSet, TEnum, TStruct, TUnion, TFunction}
SharedKinds == {TSet, TEnum, TStruct, TUnion, TFunction}

(* properties *)
Bit(k) == 2 ^ k
HasBit(p, k) == (p \div Bit(k)) % 2 = 1
BIntegral == 0  BReal == 1  BComplex == 2  BSigned == 3  BUnsigned == 4  BIeee == 5
BPadPow2 == 6  BPadBit == 7  BPadByte == 8  BBitfield == 9
RECURSIVE SubBits(_, _)
SubBits(a, b) == IF a = 0 THEN TRUE ELSE (a % 2 <= b % 2) /\ SubBits(a \div 2, b \div 2)

Tag(n) == n[1]  Props(n) == n[2]  Name(n) == n[3]  Next(n) == n[4]  Link(n) == n[5]  Attr(n) == n[6]  Qty(n) == n[7]
BlankOf(tag) == <<tag, 0, "", 0, 0, 0, <<>>>>
Null == BlankOf(TNone)

(* the builtin types: width, properties, name *)
Sint == Bit(0) + Bit(3)   Uint == Bit(0) + Bit(4)   Flt == Bit(1) + Bit(5)   Cflt == Bit(2) + Bit(5)
Pow2 == Bit(6)
BuiltinList == <<
  <<0, Bit(7), "void">>, <<1, Sint + Bit(8), "bool">>,
  <<1, Uint + Pow2, "bit">>, <<1, Sint + Pow2, "sign">>, <<8, Uint + Pow2, "ubyte">>, <<8, Sint + Pow2, "byte">>,
  <<16, Uint + Pow2, "ushort">>, <<16, Sint + Pow2, "short">>, <<32, Uint + Pow2, "uint">>, <<32, Sint + Pow2, "int">>,
  <<64, Uint + Pow2, "ulong">>, <<64, Sint + Pow2, "long">>, <<128, Uint + Pow2, "ucent">>, <<128, Sint + Pow2, "cent">>,
  <<16, Flt + Pow2, "half">>, <<32, Flt + Pow2, "float">>, <<64, Flt + Pow2, "double">>, <<128, Flt + Pow2, "quad">>,
  <<32, Cflt + Pow2, "chalf">>, <<64, Cflt + Pow2, "cfloat">>, <<128, Cflt + Pow2, "cdouble">>, <<256, Cflt + Pow2, "cquad">> >>
NBuiltin == Len(BuiltinList)
Builtin(i) == LET b == BuiltinList[i] IN <<TIntrinsic, b[2], b[3], 0, 0, 0, OfInt(b[1])>>
EmptyDb == [nodes |-> <<Null>>, root |-> 0]
DefaultDb == [nodes |-> <<Null>> \o [i \in 1..NBuiltin |-> Builtin(i)], root |-> 0]
FirstUser == NBuiltin + 1

Count(db) == Len(db.nodes)
Ids(db) == 0..(Count(db) - 1)
N(db, id) == db.nodes[id + 1]
TagOf(db, id) == Tag(N(db, id))
WithNode(db, n) == [db EXCEPT !.nodes = Append(@, n)]
SetNode(db, id, n) == [db EXCEPT !.nodes[id + 1] = n]

(* looking a builtin up by width and properties *)
RECURSIVE FirstMatch(_, _, _, _)
FirstMatch(db, id, props, width) ==
    IF id >= Count(db) THEN 0
    ELSE LET n == N(db, id) IN
         IF Tag(n) = TIntrinsic /\ Qty(n) = width /\ SubBits(props, Props(n)) THEN id ELSE FirstMatch(db, id + 1, props, width)
Intrinsic(db, props, width) == FirstMatch(db, 0, props, width)

(* lists *)
RECURSIVE Chain(_, _)
Chain(db, id) == IF id = 0 THEN <<>> ELSE <<id>> \o Chain(db, Next(N(db, id)))
Children(db, id) == Chain(db, Link(N(db, id)))
Attributes(db, id) == Chain(db, Attr(N(db, id)))
Select(db, ids, kinds) == SelectSeq(ids, LAMBDA i : TagOf(db, i) \in kinds)
Queries == [enum_constants |-> <<{TEnum}, {TConstant}>>, set_constants |-> <<{TSet}, {TConstant}>>,
            struct_fields |-> <<{TStruct}, {TField}>>, union_fields |-> <<{TUnion}, {TField}>>,
            function_params |-> <<{TFunction}, {TParam}>>, source_decls |-> <<{TSource}, 0..18>>,
            source_types |-> <<{TSource}, TypeKinds>>, source_fields |-> <<{TSource}, {TField}>>,
            source_functions |-> <<{TSource}, {TFunction}>>, archive_sources |-> <<{TArchive}, {TSource}>>]
Allowed(db, fn, id) == TagOf(db, id) \in Queries[fn][1]
Members(db, fn, id) == Select(db, Children(db, id), Queries[fn][2])
Take(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)

(* ---- layout, in octets: the x86-64 C ABI. Sizes are naturals of any size, alignments small ---- *)
RoundUp(x, a) == LET y == AddSmall(x, a - 1) IN IF y = <<>> THEN y ELSE Norm([y EXCEPT ![1] = y[1] - (y[1] % a)])
Max(a, b) == IF a > b THEN a ELSE b
NatMax(a, b) == IF NatLess(a, b) THEN b ELSE a
Fits(x) == Len(x) <= 7
Width(n) == ToInt(Qty(n))
RECURSIVE InAbi(_, _)
InAbi(db, id) ==
    LET n == N(db, id)  t == Tag(n) IN
    CASE t = TIntrinsic -> (Width(n) >= 8 /\ IsSmall(Qty(n))) \/ HasBit(Props(n), BPadByte)
      [] t \in {TEnum, TSet} -> IsSmall(Qty(n)) /\ Width(n) \in {8, 16, 32, 64}
      [] t = TPointer -> Qty(n) = <<64>>
      [] t \in {TTypedef, TQualifier, TAlias} -> Link(n) # 0 /\ InAbi(db, Link(n))
      [] t = TArray -> Link(n) # 0 /\ Fits(Qty(n)) /\ InAbi(db, Link(n))
      [] t \in {TStruct, TUnion} -> \A f \in {Children(db, id)[i] : i \in 1..Len(Children(db, id))} :
              TagOf(db, f) = TField => ~HasBit(Props(N(db, f)), BBitfield) /\ Link(N(db, f)) # 0 /\ InAbi(db, Link(N(db, f)))
      [] OTHER -> FALSE
(* <<size, alignment>> *)
RECURSIVE Layout(_, _)
RECURSIVE Place(_, _, _, _, _, _)
(* fields of a struct from the i-th on: <<offsets, end, alignment>> *)
Place(db, fs, i, off, al, acc) ==
    IF i > Len(fs) THEN <<acc, off, al>>
    ELSE LET l == Layout(db, Link(N(db, fs[i])))
             o == RoundUp(off, l[2])
         IN Place(db, fs, i + 1, Add(o, l[1]), Max(al, l[2]), Append(acc, o))
Fields(db, id) == Select(db, Children(db, id), {TField})
Layout(db, id) ==
    LET n == N(db, id)  t == Tag(n) IN
    CASE t = TIntrinsic -> LET s == IF Width(n) < 8 THEN 1 ELSE Width(n) \div 8
                               a == IF HasBit(Props(n), BComplex) THEN s \div 2 ELSE s
                           IN <<OfInt(s), a>>
      [] t \in {TEnum, TSet} -> <<OfInt(Width(n) \div 8), Width(n) \div 8>>
      [] t = TPointer -> <<<<8>>, 8>>
      [] t \in {TTypedef, TQualifier, TAlias} -> Layout(db, Link(n))
      [] t = TArray -> LET e == Layout(db, Link(n)) IN <<Mul(e[1], Norm(Qty(n))), e[2]>>
      [] t = TStruct -> LET p == Place(db, Fields(db, id), 1, <<>>, 1, <<>>) IN <<RoundUp(p[2], p[3]), p[3]>>
      [] t = TUnion -> LET fs == Fields(db, id)
                           RECURSIVE U(_, _, _)
                           U(i, s, a) == IF i > Len(fs) THEN <<RoundUp(s, a), a>>
                                         ELSE LET l == Layout(db, Link(N(db, fs[i]))) IN U(i + 1, NatMax(s, l[1]), Max(a, l[2]))
                       IN U(1, <<>>, 1)
      [] OTHER -> <<<<>>, 1>>
BitsOf(size) == MulSmall(size, 8)
(* the field-offset query: <<field, offset in bits>> pairs, then <<0, total>> *)
Offsets(db, id) ==
    LET fs == Fields(db, id)
        p == Place(db, fs, 1, <<>>, 1, <<>>)
    IN [i \in 1..Len(fs) |-> <<fs[i], BitsOf(p[1][i])>>] \o <<<<0, BitsOf(RoundUp(p[2], p[3]))>>>>

(* ---- structural identity: the declaration unfolded; a reference back to an enclosing declaration *)
(* counts by its kind and name                                                                      *)
RECURSIVE Term(_, _, _, _)
TermList(db, ids, open, thru) == [i \in 1..Len(ids) |-> Term(db, ids[i], open, thru)]
BackRef(n) == <<Tag(n), Name(n), -1, <<>>, <<>>, <<>>>>
(* thru: aliases are followed *)
Term(db, id, open, thru) ==
    LET n == N(db, id)  o == open \cup {id} IN
    IF thru /\ Tag(n) = TAlias THEN Term(db, Link(n), open, thru)
    ELSE <<Tag(n), Name(n), Props(n), Qty(n), TermList(db, Attributes(db, id), o, thru),
           IF Link(n) = 0 THEN <<>>
           ELSE IF Tag(n) \in ContainerKinds THEN TermList(db, Children(db, id), o, thru)
           ELSE LET RECURSIVE Target(_)
                    Target(x) == IF thru /\ TagOf(db, x) = TAlias THEN Target(Link(N(db, x))) ELSE x
                    k == Target(Link(n))
                IN IF k \in o THEN <<BackRef(N(db, k))>> ELSE <<Term(db, k, o, thru)>> >>
(* what a declaration refers to, in order: attributes, then members or the linked declaration *)
Targets(db, id) == LET n == N(db, id) IN
    Attributes(db, id) \o (IF Link(n) = 0 THEN <<>> ELSE IF Tag(n) \in ContainerKinds THEN Children(db, id) ELSE <<Link(n)>>)
(* everything reachable from a set of declarations without passing through those in `stop` *)
RECURSIVE Closure(_, _, _)
Closure(db, seen, stop) ==
    LET new == UNION {{Targets(db, x)[k] : k \in 1..Len(Targets(db, x))} : x \in seen \ stop} \ seen IN
    IF new = {} THEN seen ELSE Closure(db, seen \cup new, stop)
ReachedFrom(db, id) == Closure(db, {id}, {})
Reached(db) == ReachedFrom(db, db.root)
(* declarations whose recursion, and that of everything below them, is simple: it passes through one    *)
(* struct, union, enum, set or function, the head, and otherwise only through unnamed ones that lie      *)
(* within it: reached through it alone, and not recursive but by it.  They look the same from everywhere.*)
Knots == SharedKinds \cup {TTypedef, TAlias, TSource, TArchive}
Plain(db) ==
    LET top == Reached(db)
        rm == TLCEval([i \in top |-> ReachedFrom(db, i)])
        rec == TLCEval({i \in top : \E k \in 1..Len(Targets(db, i)) : i \in rm[Targets(db, i)[k]]})
        \* the knots on the cycles through i
        knots == TLCEval([i \in rec |-> {y \in rm[i] : TagOf(db, y) \in Knots /\ i \in rm[y]}])
        within == TLCEval([s \in {s \in rec : TagOf(db, s) \in SharedKinds /\ Cardinality(knots[s]) > 1} |->
            LET apart == TLCEval(Closure(db, {db.root}, {s})) IN
            {y \in knots[s] \ {s} : /\ Name(N(db, y)) = "" /\ TagOf(db, y) \in SharedKinds /\ y \notin apart
                                    /\ LET ts == {Targets(db, y)[k] : k \in 1..Len(Targets(db, y))} IN y \notin Closure(db, ts, {s})}])
        heads == TLCEval([i \in rec |-> {s \in knots[i] : /\ TagOf(db, s) \in SharedKinds
                                                          /\ (Cardinality(knots[i]) > 1 => s \in DOMAIN within /\ knots[i] \ {s} \subseteq within[s])}])
        odd == {i \in rec : heads[i] = {}}
        set == {i \in top : rm[i] \cap odd = {} /\ (i \in rec => TagOf(db, i) \in SharedKinds)}
    \* what is open around each
    IN [i \in set |-> IF i \in rec THEN heads[i] \ {i} ELSE {}]
PlainSet(db) == DOMAIN Plain(db)

(* two declarations are equal when no path of references tells them apart; aliases are followed *)
RECURSIVE Thru(_, _)
Thru(db, x) == IF TagOf(db, x) = TAlias /\ Link(N(db, x)) # 0 THEN Thru(db, Link(N(db, x))) ELSE x
RECURSIVE Sim(_, _, _, _, _)
RECURSIVE SimList(_, _, _, _, _, _)
Differ == [ok |-> FALSE, seen |-> {}]
SimList(d, xs, e, ys, i, a) == IF i > Len(xs) \/ ~a.ok THEN a ELSE SimList(d, xs, e, ys, i + 1, Sim(d, xs[i], e, ys[i], a))
Sim(d, x0, e, y0, a) ==
    LET x == Thru(d, x0)  y == Thru(e, y0)  n == N(d, x)  m == N(e, y) IN
    IF ~a.ok \/ <<x, y>> \in a.seen THEN a
    ELSE IF <<Tag(n), Props(n), Name(n), Qty(n), Link(n) = 0>> # <<Tag(m), Props(m), Name(m), Qty(m), Link(m) = 0>>
            \/ Len(Attributes(d, x)) # Len(Attributes(e, y)) \/ Len(Targets(d, x)) # Len(Targets(e, y)) THEN Differ
    ELSE SimList(d, Targets(d, x), e, Targets(e, y), 1, [a EXCEPT !.seen = @ \cup {<<x, y>>}])
Equal(d, x, e, y) == Sim(d, x, e, y, [ok |-> TRUE, seen |-> {}]).ok

(* ---- well-formed tables ---- *)
Closed(db) == /\ db.root \in Ids(db)
              /\ \A i \in Ids(db) : {Next(N(db, i)), Link(N(db, i)), Attr(N(db, i))} \subseteq Ids(db)
===============================================================================
