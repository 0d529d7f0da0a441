---------------------------------- MODULE Image ----------------------------------
(* The image of a database: header (magic, counts, root), user declarations of eight words, user     *)
(* names.  The builtin declarations and their names are not stored.                                  *)
EXTENDS Db
Magic == <<99, 114, 101, 102, 108, 48, 48, 48>>
HdrLen == 20
NodeLen == 32
RECURSIVE NamesLen(_)
NamesLen(i) == IF i = 0 THEN 1 ELSE NamesLen(i - 1) + Len(BuiltinList[i][3]) + 1
NameBase == NamesLen(NBuiltin)
DeclBase == NBuiltin + 1
(* declarations here: <<tag, props, name offset, next, link, attr, quantity>>, every entry a natural *)
NodeOctets(n) == PadTo(n[1], 4) \o PadTo(n[2], 4) \o PadTo(n[3], 4) \o PadTo(n[4], 4) \o PadTo(n[5], 4) \o PadTo(n[6], 4) \o PadTo(n[7], 8)
RECURSIVE NodesOctets(_)
NodesOctets(ns) == IF ns = <<>> THEN <<>> ELSE NodeOctets(ns[1]) \o NodesOctets(SubSeq(ns, 2, Len(ns)))
(* img: [magic, count, namelen, root, nodes, names] *)
Octets_(img) == img.magic \o PadTo(img.count, 4) \o PadTo(img.namelen, 4) \o PadTo(img.root, 4) \o NodesOctets(img.nodes) \o img.names
Encode(nodes, names, root) == Octets_([magic |-> Magic, count |-> OfInt(Len(nodes)), namelen |-> OfInt(Len(names)), root |-> OfInt(root), nodes |-> nodes, names |-> names])
ImageSize(nodes, names) == HdrLen + NodeLen * Len(nodes) + Len(names)

W(o, i) == Norm(SubSeq(o, i + 1, i + 4))
W8(o, i) == Norm(SubSeq(o, i + 1, i + 8))
Tables(o) == Len(o) >= HdrLen /\ SubSeq(o, 1, 8) = Magic /\ IsSmall(W(o, 8)) /\ IsSmall(W(o, 12))
             /\ ToInt(W(o, 8)) <= (Len(o) - HdrLen) \div NodeLen
             /\ ToInt(W(o, 12)) <= Len(o) - HdrLen - NodeLen * ToInt(W(o, 8))
NCount(o) == ToInt(W(o, 8))
NLen(o) == ToInt(W(o, 12))
NodeAt(o, k) == LET b == HdrLen + NodeLen * (k - 1) IN
    <<W(o, b), W(o, b + 4), W(o, b + 8), W(o, b + 12), W(o, b + 16), W(o, b + 20), W8(o, b + 24)>>
NodesOf(o) == [k \in 1..NCount(o) |-> NodeAt(o, k)]
NamesOf(o) == LET b == HdrLen + NodeLen * NCount(o) IN SubSeq(o, b + 1, b + NLen(o))
Inside(w, bound) == IsSmall(w) /\ ToInt(w) < bound
(* what an acceptable image looks like *)
Acceptable(o) ==
    /\ Tables(o)
    /\ NLen(o) > 0 => o[HdrLen + NodeLen * NCount(o) + NLen(o)] = 0
    /\ NCount(o) > 0 =>
         /\ W(o, 16) = OfInt(DeclBase)
         /\ \A k \in 1..NCount(o) : LET n == NodeAt(o, k) IN
              /\ Inside(n[3], NameBase + NLen(o))
              /\ \A f \in 4..6 : Inside(n[f], DeclBase + NCount(o))
===============================================================================
