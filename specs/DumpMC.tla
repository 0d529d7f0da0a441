--------------------------------- MODULE DumpMC ---------------------------------
(* The dump of every small database, printed row by row. *)
EXTENDS DbShapes, Json
LOCAL INSTANCE Dump
LOCAL INSTANCE TLC
CONSTANTS Builtins, MaxDecls, MaxMembers, Names
VARIABLES shape, cols, pos, out
vars == <<shape, cols, pos, out>>
Types(n) == {<<"i", b>> : b \in Builtins} \cup {<<"p", k>> : k \in 1..n} \cup {<<"n", <<"p", k>>>> : k \in 1..n} \cup {<<"a", <<"i", b>>>> : b \in Builtins}
Lists(n) == UNION {[1..k -> Types(n)] : k \in 0..MaxMembers}
Tops(n) == {<<TStruct, nm, ms>> : nm \in Names, ms \in Lists(n)} \cup {<<TTypedef, "u", <<<<"v", 1>>>>>>}
AllShapes == {x \in UNION {[1..n -> Tops(n)] : n \in 1..MaxDecls} : x[1][1] = TStruct}
S == TLCEval(DbOf(shape, "x.c"))
NoSums == [k \in 1..Count(S) |-> ""]
MInit == shape \in AllShapes /\ cols \in {Short, Formats.dump_ext_all} /\ pos = -1 /\ out = <<>>
MNext == /\ UNCHANGED <<shape, cols>>
         /\ \/ pos = -1 /\ out' = <<Titles(cols), Rule(cols)>> /\ pos' = S.root
            \/ pos >= 0 /\ pos < Count(S) /\ out' = Append(out, Row(S, QNames(S), NoSums, pos, cols)) /\ pos' = pos + 1
            \/ pos = Count(S) /\ out' = Append(out, Rule(cols)) /\ pos' = -2
MSpec == MInit /\ [][MNext]_vars
RECURSIVE Total(_, _)
Total(c, k) == IF k = 0 THEN 0 ELSE c[k][2] + Total(c, k - 1)
RECURSIVE Start(_, _)
Start(c, name) == IF c[1][1] = name THEN 0 ELSE c[1][2] + Start(SubSeq(c, 2, Len(c)), name)
At_(line, name) == LET s == Start(cols, name)  w == (CHOOSE k \in 1..Len(cols) : cols[k][1] = name) IN SubSeq(line, s + 1, s + cols[w][2])
(* every line is as wide as the columns together *)
Wide == \A k \in 1..Len(out) : Len(out[k]) = Total(cols, Len(cols))
(* a row for every declaration from the root on, by its number; short entries can be read back *)
AllThere == pos = -2 => /\ out = DumpText(S, NoSums, cols)
    /\ Len(out) = Count(S) - S.root + 3
    /\ \A k \in S.root..(Count(S) - 1) :
         LET line == out[k - S.root + 3]  n == N(S, k) IN
         /\ At_(line, "id") = Cell(Num(k), 5) /\ At_(line, "link") = Cell(Num(Link(n)), 5)
         /\ (Name(n) # "" => LET c == At_(line, "name") IN
               IF Len(Name(n)) < Len(c) THEN SubSeq(c, 1, Len(Name(n))) = Name(n) ELSE SubSeq(c, Len(c), Len(c)) = "~")
Apart == pos = -2 => \A j, k \in 3..(Len(out) - 1) : j # k => out[j] # out[k]
(* a qualified name extends that of a declaration that refers to it *)
Extends_ == pos = -2 => LET qn == QNames(S) IN
    /\ DOMAIN qn = Reached(S)
    /\ \A x \in DOMAIN qn \ {S.root} : \E p \in DOMAIN qn :
          /\ \E k \in 1..Len(Targets(S, p)) : Targets(S, p)[k] = x
          /\ qn[x] = Qualified(S, x, p, qn[p])
Emit == pos = -1 /\ cols = Short => PrintT(<<"SCRIPT", ToJson(UserNodes(S))>>)
===============================================================================
