--------------------------------- MODULE EmitMC ---------------------------------
(* The emitter writes an octet a step: literal, a comma unless it is the last, a line break at the     *)
(* line width and at the end.  What is written is read as a C initialiser.                             *)
EXTENDS Bytes, TLC, Json
CONSTANTS Sizes, Widths
VARIABLES n, w, i, out
vars == <<n, w, i, out>>
Octet(k) == (k * 37 + 11) % 256
Init == n \in Sizes /\ w \in Widths /\ i = 0 /\ out = <<"{">>
Step == /\ i < n /\ i' = i + 1 /\ UNCHANGED <<n, w>>
        /\ out' = out \o <<Octet(i)>> \o (IF i # n - 1 THEN <<",">> ELSE <<>>) \o (IF i % w = w - 1 \/ i = n - 1 THEN <<"nl">> ELSE <<>>)
Stop == i = n /\ i' = n + 1 /\ out' = Append(out, "}") /\ UNCHANGED <<n, w>>
Spec == Init /\ [][Step \/ Stop]_vars
Punct == {"{", "}", ",", "nl"}
Tok(t) == SelectSeq(t, LAMBDA x : ToString(x) # "\"nl\"")
IsLit(x) == ToString(x) \notin {"\"{\"", "\"}\"", "\",\"", "\"nl\""}
(* reading: { literal (, literal)* } *)
RECURSIVE Read(_, _, _)
Read(t, k, acc) == IF k > Len(t) \/ ~IsLit(t[k]) THEN <<>>
    ELSE IF k + 1 > Len(t) THEN <<>>
    ELSE IF IsLit(t[k + 1]) THEN <<>>
    ELSE IF t[k + 1] = "}" THEN (IF k + 1 = Len(t) THEN Append(acc, t[k]) ELSE <<>>)
    ELSE IF t[k + 1] = "," THEN Read(t, k + 2, Append(acc, t[k])) ELSE <<>>
Complete == i = n + 1 /\ n > 0 => LET t == Tok(out) IN t[1] = "{" /\ Read(t, 2, <<>>) = [k \in 1..n |-> Octet(k - 1)]
RECURSIVE Longest(_, _, _)
Longest(t, k, run) == IF k > Len(t) THEN run <= w ELSE IF ~IsLit(t[k]) THEN (IF ToString(t[k]) = "\"nl\"" THEN run <= w /\ Longest(t, k + 1, 0) ELSE Longest(t, k + 1, run)) ELSE Longest(t, k + 1, run + 1)
Short == i = n + 1 => Longest(out, 1, 0)
Emit == i = n + 1 /\ w = 16 => PrintT(<<"SCRIPT", ToJson(n)>>)
===============================================================================
