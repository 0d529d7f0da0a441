-------------------------------- MODULE OidGen --------------------------------
(* The generator of the table of object identifiers: a registry is a list of entries                 *)
(* [name, oid: contents octets]; the generator prints one row per entry, ordered by dotted text.      *)
EXTENDS Oid, FiniteSets
(* components of any size, any number of them; i: position, cur: value of the groups so far          *)
RECURSIVE Subids(_, _, _, _)
Subids(s, i, cur, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET v == AddSmall(MulSmall(cur, 128), s[i] % 128) IN
         IF s[i] >= 128 THEN Subids(s, i + 1, v, acc) ELSE Subids(s, i + 1, <<>>, Append(acc, v))
Components(s) == LET g == Subids(s, 1, <<>>, <<>>) IN IF g = <<>> THEN <<>> ELSE SplitFirst(g[1]) \o Tail(g)
Dotted(s) == TextOf(Components(s))
Whole(s) == s = <<>> \/ s[Len(s)] < 128             \* ends with a component
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF i > Len(b) THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeq(a, b, i + 1)
Count(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})
Rearranged(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a[i], a) = Count(a[i], b)
TextRow(e) == [text |-> Dotted(e.oid), name |-> e.name]
OctetRow(e) == [oid |-> e.oid, len |-> Len(e.oid), name |-> e.name]
TextRowsOK(reg, rows) == /\ Rearranged([i \in 1..Len(reg) |-> TextRow(reg[i])], rows)
                         /\ \A i \in 1..(Len(rows) - 1) : LexLeq(rows[i].text, rows[i + 1].text, 1)
OctetRowsOK(reg, rows) == /\ Rearranged([i \in 1..Len(reg) |-> OctetRow(reg[i])], rows)
                          /\ \A i \in 1..(Len(rows) - 1) : LexLeq(Dotted(rows[i].oid), Dotted(rows[i + 1].oid), 1)
===============================================================================
