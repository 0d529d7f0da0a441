--------------------------------- MODULE Oid ---------------------------------
(* Object identifiers: sequences of naturals; X.690 8.19 contents and dotted text.            *)
EXTENDS Ber
CompMax == 15

(* what X.660 permits: two or more components, root 0..2, second below 40 under roots 0 and 1 *)
Permitted(o) == /\ Len(o) >= 2 /\ Len(o) <= CompMax
                /\ Len(o[1]) <= 1 /\ At(o[1], 1) <= 2
                /\ (At(o[1], 1) < 2 => Len(o[2]) <= 1 /\ At(o[2], 1) < 40)
                /\ \A i \in 1..Len(o) : Below2p56(o[i])
Combined(o) == <<AddSmall(o[2], 40 * At(o[1], 1))>> \o SubSeq(o, 3, Len(o))
RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)
EncOid(o) ==
    IF o = <<>> THEN <<>>
    ELSE LET c == Combined(o)  t == [i \in 1..Len(c) |-> EncTag(c[i])] IN
         IF \E i \in 1..Len(t) : t[i] = Refused THEN Refused ELSE Concat(t, 1)
RECURSIVE DecComps(_, _, _)
DecComps(s, left, acc) ==                          \* left: contents octets still to read
    IF left = 0 THEN Good(acc, 0)
    ELSE LET t == DecTag(s) IN
         IF ~t.ok \/ t.used > left THEN Bad(<<>>)
         ELSE DecComps(SubSeq(s, t.used + 1, Len(s)), left - t.used, Append(acc, t.val))
SplitFirst(n) == IF Len(n) <= 1 /\ At(n, 1) < 40 THEN <<<<>>, n>>
                 ELSE IF Len(n) <= 1 /\ At(n, 1) < 80 THEN <<<<1>>, SubSmall(n, 40)>>
                 ELSE <<<<2>>, SubSmall(n, 80)>>
DecOid(s, len) ==
    IF ~IsSmall(len) \/ ToInt(len) > Len(s) THEN Bad(<<>>)
    ELSE LET r == DecComps(s, ToInt(len), <<>>) IN
         IF ~r.ok \/ Len(r.val) + 1 > CompMax THEN Bad(<<>>)
         ELSE IF r.val = <<>> THEN Good(<<>>, 0)
         ELSE Good(SplitFirst(r.val[1]) \o SubSeq(r.val, 2, Len(r.val)), ToInt(len))

(* dotted decimal text, as character codes *)
RECURSIVE Decimal(_)
Decimal(n) == LET d == DivMod(n, 10) IN
              IF d[1] = <<>> THEN <<48 + d[2]>> ELSE Append(Decimal(d[1]), 48 + d[2])
RECURSIVE OidText(_, _)
OidText(o, i) == IF i > Len(o) THEN <<>>
                 ELSE (IF i > 1 THEN <<46>> ELSE <<>>) \o Decimal(o[i]) \o OidText(o, i + 1)
TextOf(o) == OidText(o, 1)
(* parser automaton: st is "start" (of a component) or "digits"; stops at the first offence *)
RECURSIVE ParseText(_, _, _, _, _)
ParseText(s, i, st, cur, acc) ==
    IF i > Len(s) THEN
        IF st = "digits" THEN (IF Len(acc) < CompMax THEN Good(Append(acc, cur), 0) ELSE [ok |-> FALSE, val |-> acc, used |-> 0])
        ELSE IF s = <<>> THEN Good(<<>>, 0) ELSE [ok |-> FALSE, val |-> acc, used |-> 0]
    ELSE IF s[i] \in 48..57 THEN
        LET v == AddSmall(MulSmall(cur, 10), s[i] - 48) IN
        IF Below2p56(v) THEN ParseText(s, i + 1, "digits", v, acc) ELSE [ok |-> FALSE, val |-> acc, used |-> 0]
    ELSE IF s[i] = 46 /\ st = "digits" /\ Len(acc) < CompMax THEN ParseText(s, i + 1, "start", <<>>, Append(acc, cur))
    ELSE [ok |-> FALSE, val |-> acc, used |-> 0]
TextToOid(s) == ParseText(s, 1, "start", <<>>, <<>>)
===============================================================================
