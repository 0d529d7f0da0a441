------------------------------- MODULE OidGenMC -------------------------------
(* The generator's loop as a machine, one octet per step, against the definition; every short string  *)
(* of octets that ends with a component is a registry entry for the real generator.                  *)
EXTENDS OidGen, FiniteSets, Json, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES s, i, c, r
vars == <<s, i, c, r>>
Init == s = <<>> /\ i = 0 /\ c = <<>> /\ r = <<>>
First(v) == LET a == IF Len(v) <= 1 /\ At(v, 1) < 40 THEN 0 ELSE IF Len(v) <= 1 /\ At(v, 1) < 80 THEN 1 ELSE 2
            IN <<IF a = 0 THEN <<>> ELSE <<a>>, SubSmall(v, 40 * a)>>
Step == /\ Len(s) < MaxLen
        /\ \E o \in Alphabet :
             LET v == AddSmall(MulSmall(c, 128), o % 128) IN
             /\ s' = Append(s, o) /\ i' = i + 1
             /\ IF o >= 128 THEN c' = v /\ r' = r
                ELSE c' = <<>> /\ r' = IF r = <<>> THEN First(v) ELSE Append(r, v)
Next == Step
Spec == Init /\ [][Next]_vars
Right == Whole(s) => r = Components(s)
(* the library's reader agrees wherever it accepts *)
Agrees == LET d == DecOid(s, OfInt(Len(s))) IN Whole(s) /\ d.ok => d.val = r
Entries == Whole(s) => PrintT(<<"SCRIPT", ToJson(s)>>)
===============================================================================
