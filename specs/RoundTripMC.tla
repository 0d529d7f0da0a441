------------------------------- MODULE RoundTripMC -------------------------------
(* Every small database: built step by step, its image decodes to the same tables, the image of the  *)
(* decoded tables is the same image, and no strict prefix of it is acceptable.                       *)
EXTENDS Image, TLC, Json
CONSTANTS MaxDecl, MaxName, Depth
VARIABLES nodes, names, offs, hist
vars == <<nodes, names, offs, hist>>
View == <<nodes, names>>
Z == <<>>
MInit == nodes = <<>> /\ names = <<>> /\ offs = <<>> /\ hist = <<<<"new", 0>>, <<"defaults", 0>>>>
Log(x) == hist' = Append(hist, x)
Id(k) == DeclBase + k - 1
MDecl == \E t \in {TSource, TAlias} :
    /\ Len(nodes) < MaxDecl /\ nodes' = Append(nodes, <<OfInt(t), Z, Z, Z, Z, Z, Z>>) /\ Log(<<"decl", 0, t>>) /\ UNCHANGED <<names, offs>>
(* texts: one or two letters, or the empty name, which has no octets of its own *)
MName == \E t \in {"", "a", "bb"} :
    /\ Len(offs) < MaxName
    /\ offs' = Append(offs, IF t = "" THEN 0 ELSE NameBase + Len(names))
    /\ names' = names \o (CASE t = "" -> <<>> [] t = "a" -> <<97, 0>> [] OTHER -> <<98, 98, 0>>)
    /\ Log(<<"name", 0, t>>) /\ UNCHANGED nodes
MSet == \E k \in 1..Len(nodes), f \in {"name", "next", "link", "attr", "qty"} :
    \E v \in (CASE f = "name" -> 1..Len(offs) [] f = "qty" -> {1} [] OTHER -> {0, 1} \cup {Id(j) : j \in 1..Len(nodes)}) :
        LET w == CASE f = "name" -> OfInt(offs[v]) [] f = "qty" -> Rep(255, 8) [] OTHER -> OfInt(v)
            i == CASE f = "name" -> 3 [] f = "next" -> 4 [] f = "link" -> 5 [] f = "attr" -> 6 [] OTHER -> 7 IN
        /\ nodes[k][i] # w /\ nodes' = [nodes EXCEPT ![k] = [@ EXCEPT ![i] = w]]
        /\ Log(<<"set", 0, Id(k), f, CASE f = "name" -> v - 1 [] f = "qty" -> "18446744073709551615" [] OTHER -> v>>) /\ UNCHANGED <<names, offs>>
MNext == MDecl \/ MName \/ MSet
MSpec == MInit /\ [][MNext]_vars
Bound == Len(hist) <= Depth
O == Encode(nodes, names, DeclBase)
RoundTrip == Len(O) = ImageSize(nodes, names) /\ Acceptable(O) /\ NodesOf(O) = nodes /\ NamesOf(O) = names
Again == Encode(NodesOf(O), NamesOf(O), ToInt(W(O, 16))) = O
Prefixes == \A k \in 0..(Len(O) - 1) : ~Acceptable(SubSeq(O, 1, k))
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
===============================================================================
