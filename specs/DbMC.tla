---------------------------------- MODULE DbMC ----------------------------------
(* Growing a database: every history of a few steps over a reduced alphabet.  `table` models the     *)
(* storage (name octets at offsets, capacities that double); dbs is what users may rely on.          *)
EXTENDS Db, TLC, Json
CONSTANTS Depth, MaxDecl, Texts
VARIABLES db, named, table, hist
vars == <<db, named, table, hist>>
View == <<db, named, table>>
(* table: [used, cap] of the name table; ids of names are offsets *)
LenOf(t) == CASE t = "" -> 0 [] t = "a" -> 1 [] t = "bb" -> 2 [] OTHER -> 40
RECURSIVE Double(_, _)
Double(cap, need) == IF cap >= need THEN cap ELSE Double(2 * cap, need)
NewId(t) == IF t = "" THEN 0 ELSE table.used
Log(x) == hist' = Append(hist, x)
MInit == db = EmptyDb /\ named = <<>> /\ table = [used |-> 1, cap |-> 4] /\ hist = <<<<"new", 0>>>>
MDefaults == /\ Count(db) = 1 /\ named = <<>> /\ db' = DefaultDb /\ Log(<<"defaults", 0>>)
             /\ table' = [used |-> 110, cap |-> 128] /\ UNCHANGED named
MDecl == \E t \in {TField, TAlias, 77} : Count(db) - (IF Count(db) > NBuiltin THEN NBuiltin ELSE 0) <= MaxDecl /\ db' = WithNode(db, BlankOf(t)) /\ Log(<<"decl", 0, t>>) /\ UNCHANGED <<named, table>>
MName == \E t \in Texts :
            /\ named' = Append(named, <<NewId(t), t>>)
            /\ table' = IF t = "" THEN table ELSE [used |-> table.used + LenOf(t) + 1, cap |-> Double(table.cap, table.used + LenOf(t) + 1)]
            /\ Log(<<"name", 0, t>>) /\ UNCHANGED db
Users == {i \in Ids(db) : i > 0 /\ (Count(db) > NBuiltin => i > NBuiltin)}
MSet == \E i \in Users, f \in {"name", "link", "qty"} :
            /\ f = "name" => named # <<>>
            /\ db' = SetNode(db, i, CASE f = "name" -> [N(db, i) EXCEPT ![3] = named[Len(named)][2]]
                                       [] f = "link" -> [N(db, i) EXCEPT ![5] = i]
                                       [] OTHER -> [N(db, i) EXCEPT ![7] = <<255, 1>>])
            /\ Log(<<"set", 0, i, f, CASE f = "name" -> Len(named) - 1 [] f = "link" -> i [] OTHER -> 511>>) /\ UNCHANGED <<named, table>>
MNext == MDefaults \/ MDecl \/ MName \/ MSet
MSpec == MInit /\ [][MNext]_vars
Bound == Len(hist) <= Depth
(* identities and contents of everything earlier stay; only Set changes a declaration *)
AppendOnly == [][/\ Count(db') >= Count(db)
                 /\ Cardinality({i \in Ids(db) : N(db', i) # N(db, i)}) <= 1
                 /\ (\E i \in Ids(db) : N(db', i) # N(db, i)) => Count(db') = Count(db)
                 /\ SubSeq(named', 1, Len(named)) = named]_vars
NamesApart == \A i, j \in 1..Len(named) : i # j /\ named[i][2] # "" => named[i][1] # named[j][1]
NamesFit == table.used <= table.cap /\ \A i \in 1..Len(named) : named[i][1] < table.used
EmptyShared == \A i \in 1..Len(named) : named[i][2] = "" <=> named[i][1] = 0
NullStays == N(db, 0) = Null
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
===============================================================================
