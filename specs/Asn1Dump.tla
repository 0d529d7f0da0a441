------------------------------- MODULE Asn1Dump -------------------------------
(* The rows of an ASN.1 dump: one per element, in file order.                                        *)
EXTENDS Oid
Sequence16 == 16
Containers == {16, 17}
TagNames == <<"boolean", "integer", "bit_string", "octet_string", "null", "object_identifier", "object_descriptor",
  "external", "real", "enumerated", "embedded_pdv", "utf8_string", "relative_oid", "", "", "sequence", "set",
  "numeric_string", "printable_string", "t61_string", "", "ia5_string", "utc_time", "generalized_time",
  "graphic_string", "iso646_string", "general_string", "utf32_string", "", "utf16_string">>
TagNum(id) == IF IsSmall(id.num) THEN ToInt(id.num) ELSE 1000000000
(* elements between offsets off and lim of s; rows: contents offset and length, depth, identifier *)
Window(s, off, lim) == SubSeq(s, off + 1, IF lim - off > 12 THEN off + 12 ELSE lim)   \* headers take at most 9 + 9 octets, each
RECURSIVE Elements(_, _, _, _)
Elements(s, off, lim, depth) ==
    IF off = lim THEN [ok |-> TRUE, rows |-> <<>>]
    ELSE LET id == DecIdent(Window(s, off, lim)) IN
         IF ~id.ok THEN [ok |-> FALSE, rows |-> <<>>]
         ELSE LET ln == DecLen(Window(s, off + id.used, lim))
                  c == off + id.used + ln.used
              IN IF ~ln.ok \/ ~IsSmall(ln.val) \/ ToInt(ln.val) > lim - c THEN [ok |-> FALSE, rows |-> <<>>]
                 ELSE LET n == ToInt(ln.val)
                          t == TagNum(id.val)
                          row == [off |-> c, len |-> n, depth |-> depth, class |-> id.val.class, cons |-> id.val.cons, tag |-> t]
                          inner == IF t \in Containers THEN Elements(s, c, c + n, depth + 1) ELSE [ok |-> TRUE, rows |-> <<>>]
                          rest == Elements(s, c + n, lim, depth)
                      IN IF ~inner.ok \/ ~rest.ok THEN [ok |-> FALSE, rows |-> <<>>]
                         ELSE [ok |-> TRUE, rows |-> <<row>> \o inner.rows \o rest.rows]
Parse(s) == Elements(s, 0, Len(s), 0)
(* the files the statement is about *)
Regular(r) == /\ r.ok
              /\ \A i \in 1..Len(r.rows) : LET x == r.rows[i] IN
                   x.class = 0 /\ x.tag > 0 /\ x.tag # 31 /\ x.depth <= 200 /\ (x.cons = 1 <=> x.tag \in Containers)
Contents(s, x) == SubSeq(s, x.off + 1, x.off + x.len)
HexShown == {2, 3, 9}
TextShown == {19, 23}
Oid6 == 6
(* what a row must show; v is the value column as octets: [kind, octets] *)
NameOK(x, name) == x.tag \in 1..30 /\ TagNames[x.tag] # "" => name = TagNames[x.tag]
ValueOK(s, x, v) ==
    CASE x.tag \in HexShown -> v.kind = "hex" /\ v.val = Contents(s, x)
      [] x.tag \in TextShown /\ (\A i \in 1..x.len : s[x.off + i] \in 32..126) -> v.kind = "text" /\ v.val = Contents(s, x)
      [] x.tag = Oid6 -> LET d == DecOid(Contents(s, x), OfInt(x.len)) IN d.ok => v.kind = "oid" /\ v.val = TextOf(d.val)
      [] OTHER -> TRUE
RowOK(s, x, e) == /\ e.off = x.off /\ e.len = x.len /\ e.depth = x.depth /\ e.cons = x.cons
                  /\ NameOK(x, e.name) /\ ValueOK(s, x, e.value)
RowsOK(s, rows, shown) == Len(shown) = Len(rows) /\ \A i \in 1..Len(rows) : RowOK(s, rows[i], shown[i])
===============================================================================
