-------------------------------- MODULE LayoutMC --------------------------------
(* The layout rules on every small type: structs and unions of up to MaxFields members drawn from    *)
(* scalars, arrays and nested records, with typedefs and qualifiers in between.                      *)
EXTENDS Db, TLC, Json
CONSTANTS MaxFields, Scalars, Wraps, Depth
VARIABLES shape, done
vars == <<shape, done>>
(* shapes: <<"i", builtin>>, <<"p">>, <<"a", n, shape>>, <<"t", shape>>, <<"q", shape>>, <<"s", shapes>>, <<"u", shapes>>, <<"e", width>> *)
Base == {<<"i", b>> : b \in Scalars} \cup {<<"p">>, <<"e", 32>>}
Wrapped(S) == S \cup {<<"a", n, x>> : n \in {1, 3}, x \in S} \cup (IF Wraps THEN {<<w, x>> : w \in {"t", "q"}, x \in S} ELSE {})
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Records(S, n) == {<<w, fs>> : w \in {"s", "u"}, fs \in Seqs(S, n)}
Inner == {<<"s", <<<<"i", 5>>, <<"i", 9>>, <<"i", 5>>>>>>, <<"u", <<<<"i", 7>>, <<"a", 3, <<"i", 5>>>>>>>>, <<"s", <<<<"i", 5>>>>>>, <<"u", <<<<"a", 5, <<"i", 5>>>>, <<"i", 11>>>>>>}
Shapes == Records(Wrapped(Base), MaxFields) \cup (IF Depth > 1 THEN Records(Wrapped(Inner) \cup Base, MaxFields) ELSE {})
MInit == shape \in Shapes /\ done = FALSE
MNext == ~done /\ done' = TRUE /\ UNCHANGED shape
MSpec == MInit /\ [][MNext]_vars
(* a shape as declarations appended to a database: <<db, id>> *)
RECURSIVE Build(_, _)
RECURSIVE BuildFields(_, _, _, _)
BuildFields(db, fs, i, ids) == IF i > Len(fs) THEN <<db, ids>>
    ELSE LET t == Build(db, fs[i]) IN BuildFields(WithNode(t[1], <<TField, 0, "f", 0, t[2], 0, <<>>>>), fs, i + 1, Append(ids, Count(t[1])))
RECURSIVE Linked(_, _, _)
Linked(db, ids, i) == IF i >= Len(ids) THEN db ELSE Linked(SetNode(db, ids[i], [N(db, ids[i]) EXCEPT ![4] = ids[i + 1]]), ids, i + 1)
Build(db, s) ==
    CASE s[1] = "i" -> <<db, s[2]>>
      [] s[1] = "p" -> <<WithNode(db, <<TPointer, 0, "", 0, 1, 0, <<64>>>>), Count(db)>>
      [] s[1] = "e" -> <<WithNode(db, <<TEnum, 0, "e", 0, 0, 0, OfInt(s[2])>>), Count(db)>>
      [] s[1] = "a" -> LET t == Build(db, s[3]) IN <<WithNode(t[1], <<TArray, 0, "", 0, t[2], 0, OfInt(s[2])>>), Count(t[1])>>
      [] s[1] = "t" -> LET t == Build(db, s[2]) IN <<WithNode(t[1], <<TTypedef, 0, "t", 0, t[2], 0, <<>>>>), Count(t[1])>>
      [] s[1] = "q" -> LET t == Build(db, s[2]) IN <<WithNode(t[1], <<TQualifier, 1024, "", 0, t[2], 0, <<>>>>), Count(t[1])>>
      [] OTHER -> LET r == BuildFields(db, s[2], 1, <<>>)
                      d == Linked(r[1], r[2], 1)
                  IN <<WithNode(d, <<IF s[1] = "s" THEN TStruct ELSE TUnion, 0, "r", 0, r[2][1], 0, <<>>>>), Count(d)>>
B == Build(DefaultDb, shape)
TheDb == B[1]
Id == B[2]
Ints(l) == <<ToInt(l[1]), l[2]>>
L == Ints(Layout(TheDb, Id))
Fs == Fields(TheDb, Id)
FL(i) == Ints(Layout(TheDb, Link(N(TheDb, Fs[i]))))
P == [i \in 1..Len(Fs) |-> ToInt(Place(TheDb, Fs, 1, <<>>, 1, <<>>)[1][i])]
ToOct(n) == ToInt(n)
Sound == InAbi(TheDb, Id) /\ L[1] % L[2] = 0 /\ \A i \in 1..Len(Fs) : L[2] % FL(i)[2] = 0 /\ FL(i)[1] % FL(i)[2] = 0
Placed == shape[1] = "s" =>
    /\ \A i \in 1..Len(Fs) : P[i] % FL(i)[2] = 0 /\ P[i] + FL(i)[1] <= L[1]
    /\ \A i \in 2..Len(Fs) : LET e == P[i - 1] + FL(i - 1)[1] IN P[i] >= e /\ P[i] - e < FL(i)[2]
    /\ LET e == P[Len(Fs)] + FL(Len(Fs))[1] IN L[1] - e < L[2] /\ P[1] = 0
Overlaid == shape[1] = "u" => LET m == CHOOSE i \in 1..Len(Fs) : \A j \in 1..Len(Fs) : FL(j)[1] <= FL(i)[1] IN
    L[1] >= FL(m)[1] /\ L[1] - FL(m)[1] < L[2]
Emit == ~done => PrintT(<<"SCRIPT", ToJson([root |-> Id, nodes |-> SubSeq(TheDb.nodes, FirstUser + 1, Count(TheDb))])>>) /\ PrintT(<<"SHAPE", ToJson(shape)>>)
===============================================================================
