---------------------------------- MODULE Dump ----------------------------------
(* What the dump tool shows of a database: one row a declaration, from the root on, in the columns of *)
(* one of eight formats; and the statistics.  Texts are strings; ~ stands for the ellipsis.           *)
EXTENDS Db
LOCAL INSTANCE TLC
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Numeral(_, _)
Numeral(n, base) == LET q == DivMod(n, base) IN (IF q[1] = <<>> THEN "" ELSE Numeral(q[1], base)) \o Digit[q[2] + 1]
Dec(n) == Numeral(n, 10)
Hex(n) == Numeral(n, 16)
Num(i) == ToString(i)

(* ---- columns ---- *)
Short == <<<<"id", 5>>, <<"attr", 5>>, <<"next", 5>>, <<"link", 5>>, <<"type", 10>>, <<"name", 15>>, <<"props", 15>>, <<"detail", 20>>>>
Long == <<<<"id", 5>>, <<"attr", 5>>, <<"next", 5>>, <<"link", 5>>, <<"type", 10>>, <<"name", 28>>, <<"props", 25>>, <<"detail", 30>>>>
HashCol == <<"hash", 57>>
Formats == [dump |-> Short, dump_fqn |-> Append(Short, <<"fqn", 23>>), dump_sum |-> Append(Short, HashCol),
            dump_all |-> Short \o <<HashCol, <<"fqn", 23>>>>,
            dump_ext |-> Long, dump_ext_fqn |-> Append(Long, <<"fqn", 30>>), dump_ext_sum |-> Append(Long, HashCol),
            dump_ext_all |-> Long \o <<HashCol, <<"fqn", 30>>>>]
RECURSIVE Fill(_, _)
Fill(c, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN c \o Fill(c, n - 1) ELSE LET h == Fill(c, n \div 2) IN h \o h
(* a cell: padded, or cut with an ellipsis when it would leave no room *)
Cell(s, w) == IF Len(s) < w THEN s \o Fill(" ", w - Len(s)) ELSE SubSeq(s, 1, w - 1) \o "~"
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE LET h == Len(ss) \div 2 IN Join(SubSeq(ss, 1, h)) \o Join(SubSeq(ss, h + 1, Len(ss)))
Line(cols, cell(_)) == Join([k \in 1..Len(cols) |-> cell(cols[k])])
Titles(cols) == Line(cols, LAMBDA c : Cell(c[1], c[2]))
Rule(cols) == Line(cols, LAMBDA c : Fill("-", c[2]))

(* ---- entries of a row ---- *)
PropNames == <<<<10, "const">>, <<11, "volatile">>, <<12, "restrict">>, <<13, "static">>, <<14, "extern_c">>, <<15, "inline">>, <<16, "noreturn">>,
               <<17, "local">>, <<18, "global">>, <<19, "weak">>, <<20, "default">>, <<21, "hidden">>, <<22, "in">>, <<23, "out">>, <<24, "vla">>>>
RECURSIVE Commas(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o "," \o Commas(SubSeq(ss, 2, Len(ss)))
Quantity(n) == LET t == Tag(n) IN
    CASE t \in {TSet, TEnum, TPointer, TIntrinsic} -> <<"width=" \o Dec(Qty(n))>>
      [] t = TArray -> <<"size=" \o Dec(Qty(n))>>
      [] t \in {TConstant, TValue} -> <<"value=" \o Dec(Qty(n))>>
      [] t = TFunction -> <<"addr=0x" \o Hex(Qty(n))>>
      [] t = TField /\ HasBit(Props(n), BBitfield) -> <<"width=" \o Dec(Qty(n))>>
      [] OTHER -> <<>>
PropList(n) == LET on == SelectSeq(PropNames, LAMBDA p : HasBit(Props(n), p[1])) IN [k \in 1..Len(on) |-> on[k][2]]
PropsText(n) == IF Tag(n) = TNone THEN "" ELSE Commas(PropList(n) \o Quantity(n))
KindText(t) == KindNames[t + 1]
Detail(db, n) == LET m == N(db, Link(n)) IN KindText(Tag(m)) \o "(\"" \o (IF Name(m) = "" THEN "anonymous" ELSE Name(m)) \o "\")"

(* ---- qualified names: the names of the enclosing declarations on the path by which a declaration is *)
(* first reached; what a source or archive lists starts afresh                                         *)
Qualified(db, id, par, prefix) ==
    LET n == N(db, id)  nm == Name(n) IN
    IF TagOf(db, par) \in {TSource, TArchive} THEN nm
    ELSE IF Tag(n) \in {TArray, TPointer} \/ nm = "" THEN prefix
    ELSE IF prefix = "" THEN nm ELSE prefix \o "::" \o nm
RECURSIVE Walk(_, _, _, _, _)
RECURSIVE WalkList(_, _, _, _, _)
WalkList(db, ids, par, prefix, m) == IF ids = <<>> THEN m ELSE WalkList(db, SubSeq(ids, 2, Len(ids)), par, prefix, Walk(db, ids[1], par, prefix, m))
Walk(db, id, par, prefix, m) ==
    IF id \in DOMAIN m THEN m
    ELSE LET q == Qualified(db, id, par, prefix) IN WalkList(db, Targets(db, id), id, q, (id :> q) @@ m)
QNames(db) == Walk(db, db.root, 0, "", <<>>)
QName(db, qn, id) ==
    LET k == IF TagOf(db, id) = TAlias THEN Link(N(db, id)) ELSE id IN
    KindText(TagOf(db, k)) \o " " \o (IF k \in DOMAIN qn THEN qn[k] ELSE "")

NoHash == Fill("0", 56)
Entry(db, qn, hash, id, col) ==
    LET n == N(db, id) IN
    CASE col = "id" -> Num(id) [] col = "attr" -> Num(Attr(n)) [] col = "next" -> Num(Next(n)) [] col = "link" -> Num(Link(n))
      [] col = "type" -> KindText(Tag(n)) [] col = "name" -> (IF Name(n) = "" THEN "(anonymous)" ELSE Name(n))
      [] col = "props" -> PropsText(n) [] col = "detail" -> Detail(db, n)
      [] col = "hash" -> (IF hash[id + 1] = "" THEN NoHash ELSE hash[id + 1])
      [] col = "fqn" -> QName(db, qn, id)
Row(db, qn, hash, id, cols) == Line(cols, LAMBDA c : Cell(Entry(db, qn, hash, id, c[1]), c[2]))
Rows(db, qn, hash, cols) == [k \in 1..(Count(db) - db.root) |-> Row(db, qn, hash, db.root + k - 1, cols)]
DumpText(db, hash, cols) == LET qn == TLCEval(QNames(db)) IN
    <<Titles(cols), Rule(cols)>> \o Rows(db, qn, hash, cols) \o <<Rule(cols)>>

(* ---- statistics ---- *)
NodeBytes == 32
HeadBytes == 20
RECURSIVE NameBytes(_, _)
NameBytes(ns, i) == IF i = 0 THEN 0 ELSE (IF Name(ns[i]) = "" THEN 0 ELSE Len(Name(ns[i])) + 1) + NameBytes(ns, i - 1)
BuiltinNames == 1 + NameBytes(DefaultDb.nodes, NBuiltin + 1)
StatsText(db, size) == LET u == Count(db) - (NBuiltin + 1) IN
    << "decl.builtin " \o Num(NodeBytes * (NBuiltin + 1)) \o " bytes (" \o Num(NBuiltin + 1) \o " records)",
       "decl.user    " \o Num(NodeBytes * u) \o " bytes (" \o Num(u) \o " records)",
       "name.builtin " \o Num(BuiltinNames) \o " bytes",
       "name.user    " \o Num(size - HeadBytes - NodeBytes * u) \o " bytes",
       "file.size    " \o Num(size) \o " bytes" >>
===============================================================================
