------------------------------ MODULE Asn1DumpMC ------------------------------
(* A cursor machine that walks a file as the tool does (one element per step, a stack of container   *)
(* ends), compared with the recursive definition, on every forest of a few elements and on every     *)
(* octet string over a small alphabet.                                                               *)
EXTENDS Asn1Dump, TLC, Json
CONSTANTS MaxElems, MaxDepth, Raw, Alphabet
VARIABLES file, want, pos, stack, shown, err
vars == <<file, want, pos, stack, shown, err>>
(* forests: sequences of <<leaf kind>> or <<container, forest>> *)
Leaves == {<<5, 0>>, <<2, 1, 200>>, <<4, 129, 2, 7, 48>>, <<6, 2, 42, 3>>, <<19, 2, 104, 105>>, <<1, 1, 0>>}
RECURSIVE Forests(_, _)
Forests(n, d) ==
    IF n = 0 THEN {<<>>}
    ELSE Forests(n - 1, d)
         \cup {<<x>> \o f : x \in {[leaf |-> TRUE, tag |-> lf[1], o |-> lf, in |-> <<>>] : lf \in Leaves}, f \in Forests(n - 1, d)}
         \cup (IF d = 0 THEN {}
               ELSE UNION {{<<[leaf |-> FALSE, tag |-> t, o |-> <<>>, in |-> g]>> \o f : t \in Containers, g \in Forests(k, d - 1), f \in Forests(n - 1 - k, d)} : k \in 0..(n - 1)})
RECURSIVE Octs(_)
Octs(f) == IF f = <<>> THEN <<>>
           ELSE (IF f[1].leaf THEN f[1].o ELSE LET b == Octs(f[1].in) IN <<32 + f[1].tag, Len(b)>> \o b) \o Octs(SubSeq(f, 2, Len(f)))
RECURSIVE Plain(_, _)
Plain(f, d) == IF f = <<>> THEN <<>>
               ELSE <<<<d, f[1].tag>>>> \o (IF f[1].leaf THEN <<>> ELSE Plain(f[1].in, d + 1)) \o Plain(SubSeq(f, 2, Len(f)), d)
Init == /\ \/ \E f \in Forests(MaxElems, MaxDepth) : file = Octs(f) /\ want = [known |-> TRUE, rows |-> Plain(f, 0)]
           \/ file \in UNION {[1..n -> Alphabet] : n \in 0..Raw} /\ want = [known |-> FALSE, rows |-> <<>>]
        /\ pos = 0 /\ stack = <<Len(file)>> /\ shown = <<>> /\ err = FALSE
Top == stack[Len(stack)]
Pop == ~err /\ Len(stack) > 1 /\ pos = Top /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<file, want, pos, shown, err>>
Show == /\ ~err /\ pos < Top
        /\ LET id == DecIdent(SubSeq(file, pos + 1, Len(file)))
               ln == IF id.ok THEN DecLen(SubSeq(file, pos + id.used + 1, Len(file))) ELSE Bad(<<>>)
               c == pos + id.used + ln.used
           IN IF ~id.ok \/ ~ln.ok \/ c > Top \/ ~IsSmall(ln.val) \/ ToInt(ln.val) > Top - c THEN err' = TRUE /\ UNCHANGED <<pos, stack, shown>>
              ELSE LET n == ToInt(ln.val)  t == TagNum(id.val) IN
                   /\ shown' = Append(shown, [off |-> c, len |-> n, depth |-> Len(stack) - 1, class |-> id.val.class, cons |-> id.val.cons, tag |-> t])
                   /\ IF t \in Containers THEN pos' = c /\ stack' = Append(stack, c + n) ELSE pos' = c + n /\ stack' = stack
                   /\ err' = FALSE
        /\ UNCHANGED <<file, want>>
Next == Pop \/ Show
Spec == Init /\ [][Next]_vars
Done == err \/ (Len(stack) = 1 /\ pos = Len(file))
P == Parse(file)
Agrees == Done => (P.ok = ~err) /\ (~err => P.rows = shown)
Inside == \A i \in 1..Len(shown) : shown[i].off + shown[i].len <= Len(file)
Forest == Done /\ want.known => ~err /\ [i \in 1..Len(shown) |-> <<shown[i].depth, shown[i].tag>>] = want.rows
Nested == Len(stack) <= Len(shown) + 1 /\ \A i \in 2..Len(stack) : stack[i] <= stack[i - 1]
Emit == shown = <<>> /\ pos = 0 /\ ~err => PrintT(<<"SCRIPT", ToJson(file)>>)
===============================================================================
