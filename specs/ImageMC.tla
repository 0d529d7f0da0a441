--------------------------------- MODULE ImageMC ---------------------------------
(* Images that lie: every combination of claimed counts, root, references, name terminator and       *)
(* actual length for up to two declarations.  The staged reader - header, tables, root, references - *)
(* accepts exactly the acceptable images, and never looks at an octet beyond the input.              *)
EXTENDS Image, TLC, Json
CONSTANTS Wide
VARIABLES img, cut, stage, looked
vars == <<img, cut, stage, looked>>
Huge == <<255, 255, 255, 255>>
Z == <<>>
Blank == <<OfInt(17), Z, Z, Z, Z, Z, Z>>
Counts == {Z, <<1>>, <<2>>, <<3>>, <<0, 0, 0, 8>>, Huge}
Roots == {Z, OfInt(DeclBase - 1), OfInt(DeclBase), OfInt(DeclBase + 1), Huge}
Refs == {OfInt(1), OfInt(DeclBase), OfInt(DeclBase + 1), OfInt(DeclBase + 2), <<0, 0, 1>>, Huge}
NameRefs == {OfInt(1), OfInt(NameBase - 1), OfInt(NameBase), OfInt(NameBase + 1), OfInt(NameBase + 2), OfInt(NameBase + 3), Huge}
NameTables == {<<>>, <<0>>, <<97>>, <<97, 0>>, <<0, 97>>, <<97, 98, 0>>, <<97, 0, 98>>}
(* one lying word per declaration at most *)
Lies == {<<f, w>> : f \in 4..6, w \in Refs} \cup {<<3, w>> : w \in NameRefs}
Node(x) == [Blank EXCEPT ![x[1]] = x[2]]
Nodes == {<<>>} \cup {<<Node(x)>> : x \in Lies} \cup {<<Blank, Node(x)>> : x \in Lies}
         \cup (IF Wide THEN {<<Node(x), Node(y)>> : x \in Lies, y \in Lies} ELSE {})
Honest(ns, nm) == [magic |-> Magic, count |-> OfInt(Len(ns)), namelen |-> OfInt(Len(nm)), root |-> OfInt(DeclBase), nodes |-> ns, names |-> nm]
Few == {ns \in Nodes : ns = <<>> \/ ns[Len(ns)] = Node(<<5, OfInt(DeclBase)>>)}
Imgs == {Honest(ns, nm) : ns \in Nodes, nm \in NameTables}
        \cup {[Honest(ns, nm) EXCEPT !.count = c, !.namelen = k] : ns \in Few, nm \in {<<>>, <<97, 0>>}, c \in Counts, k \in Counts}
        \cup {[Honest(ns, nm) EXCEPT !.root = r] : ns \in Few, nm \in {<<>>, <<97, 0>>}, r \in Roots}
        \cup {[Honest(ns, nm) EXCEPT !.magic = [Magic EXCEPT ![i] = 49]] : ns \in Few, nm \in {<<97, 0>>}, i \in 1..8}
Cuts == {0, 1, 2, 3, 31, 32, 33} \cup {-1, -12}
MInit == img \in Imgs /\ cut \in Cuts /\ (cut # 0 => img.nodes \in Few) /\ stage = "header" /\ looked = 0
Whole == Octets_(img)
O == IF cut >= 0 THEN SubSeq(Whole, 1, Max(0, Len(Whole) - cut)) ELSE Whole \o Rep(0, 0 - cut)
Look(k) == looked' = Max(looked, k)
To(s) == stage' = s /\ UNCHANGED <<img, cut>>
Header == stage = "header" /\ IF Len(O) < HdrLen THEN To("refused") /\ Look(0) ELSE (Look(HdrLen) /\ To(IF SubSeq(O, 1, 8) = Magic THEN "tables" ELSE "refused"))
TablesStep == stage = "tables" /\ IF Tables(O) THEN To("names") /\ Look(0) ELSE To("refused") /\ Look(0)
NamesStep == stage = "names" /\ LET e == HdrLen + NodeLen * NCount(O) + NLen(O) IN
    IF NLen(O) = 0 THEN Look(0) /\ To("root") ELSE Look(e) /\ To(IF O[e] = 0 THEN "root" ELSE "refused")
RootStep == stage = "root" /\ Look(0) /\ To(IF NCount(O) = 0 THEN "accepted" ELSE IF W(O, 16) = OfInt(DeclBase) THEN "refs" ELSE "refused")
RefsStep == stage = "refs" /\ Look(HdrLen + NodeLen * NCount(O))
    /\ To(IF \A k \in 1..NCount(O) : LET n == NodeAt(O, k) IN Inside(n[3], NameBase + NLen(O)) /\ \A f \in 4..6 : Inside(n[f], DeclBase + NCount(O))
          THEN "accepted" ELSE "refused")
MNext == Header \/ TablesStep \/ NamesStep \/ RootStep \/ RefsStep
MSpec == MInit /\ [][MNext]_vars
Exact == /\ (stage = "accepted" => Acceptable(O)) /\ (stage = "refused" => ~Acceptable(O))
NeverBeyond == looked <= Len(O)
(* every name reference of an accepted image meets a terminator inside the tables *)
Terminated == stage = "accepted" => \A k \in 1..NCount(O) : LET n == ToInt(NodeAt(O, k)[3]) IN
    n >= NameBase => \E e \in 1..NLen(O) : e > n - NameBase /\ NamesOf(O)[e] = 0
Emit == stage = "header" => PrintT(<<"SCRIPT", ToJson(O)>>)
===============================================================================
