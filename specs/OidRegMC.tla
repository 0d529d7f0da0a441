------------------------------- MODULE OidRegMC -------------------------------
(* A lookup as a walk over the trie of the registry, one octet per step, compared with the registry  *)
(* itself; the questions are every listed identifier and its near misses: cut, extended, one octet   *)
(* changed, repeated.                                                                                *)
EXTENDS OidReg, Bitwise
CONSTANTS Kinds, Step
VARIABLES q, pos, node
vars == <<q, pos, node>>
Prefixes == UNION {{SubSeq(o, 1, k) : k \in 0..Len(o)} : o \in Oids}
Near(o, kind) ==
    CASE kind = "same" -> {o}
      [] kind = "cut" -> {SubSeq(o, 1, k) : k \in 0..(Len(o) - 1)}
      [] kind = "tail" -> {SubSeq(o, 2, Len(o))}
      [] kind = "longer" -> {Append(o, x) : x \in {0, 1, 128, 255}}
      [] kind = "twice" -> {o \o o}
      [] kind = "swap" -> IF Len(o) < 2 THEN {} ELSE {[o EXCEPT ![i] = o[i + 1], ![i + 1] = o[i]] : i \in 1..(Len(o) - 1)}
      [] kind = "flip" -> {[o EXCEPT ![i] = o[i] ^^ x] : i \in 1..Len(o), x \in {1, 128}}
      [] kind = "zero" -> {[o EXCEPT ![i] = 0] : i \in 1..Len(o)} \cup {<<0>> \o o}
      [] kind = "last" -> {[o EXCEPT ![Len(o)] = x] : x \in {y \in 0..255 : y % Step = 0}}
Questions == UNION {UNION {Near(o, k) : k \in Kinds} : o \in Oids}
Init == q \in Questions /\ pos = 0 /\ node = <<>>
Walk == /\ pos < Len(q) /\ pos' = pos + 1 /\ q' = q
        /\ node' = IF node # <<-1>> /\ Append(node, q[pos + 1]) \in Prefixes THEN Append(node, q[pos + 1]) ELSE <<-1>>
Next == Walk
Spec == Init /\ [][Next]_vars
TrieAnswer == IF node # <<-1>> /\ node \in Oids THEN Names[node] ELSE {""}
Exact == pos = Len(q) => TrieAnswer = Answers(q)
AllQuestions == pos = 0 => PrintT(<<"SCRIPT", ToJson(q)>>)
===============================================================================
