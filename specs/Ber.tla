--------------------------------- MODULE Ber ---------------------------------
(* X.690 identifier, length and simple contents octets; LEB128 and VLU integers.              *)
(* Enc* return the octets, or "refused"; Dec* take the octets from the cursor on and return   *)
(* [ok, val, used].  Failed decoders deliver the zero value of the kind.                      *)
EXTENDS Bytes

Refused == <<-1>>                                  \* no octets: the encoder must fail
Bad(z) == [ok |-> FALSE, val |-> z, used |-> 0]
Good(v, n) == [ok |-> TRUE, val |-> v, used |-> n]

(* base-128, most significant group first, top bit set on all but the last (8.1.2.4.2) *)
EncTag(n) ==
    IF ~Below2p56(n) THEN Refused
    ELSE LET b == Bits(n)
             g == Groups(SubSeq(b, 1, HiNZ(b, Len(b))), 7)
             m == IF g = <<>> THEN <<0>> ELSE g
             k == Len(m)
         IN [i \in 1..k |-> m[k + 1 - i] + (IF i < k THEN 128 ELSE 0)]
RECURSIVE GroupEnd(_, _)
GroupEnd(s, i) == IF i > Len(s) \/ i > 8 THEN 0 ELSE IF s[i] < 128 THEN i ELSE GroupEnd(s, i + 1)
DecTag(s) ==
    LET k == GroupEnd(s, 1) IN
    IF k = 0 THEN Bad(<<>>)
    ELSE Good(NatOfBits([j \in 1..(7 * k) |-> (s[k - (j - 1) \div 7] \div P2[((j - 1) % 7) + 1]) % 2]), k)

(* identifier octets (8.1.2): [class, cons, num] *)
EncIdent(d) ==
    LET lead == d.class * 64 + d.cons * 32
        low == IF Len(d.num) <= 1 THEN At(d.num, 1) ELSE 255
    IN IF low < 31 THEN <<lead + low>>
       ELSE LET t == EncTag(d.num) IN IF t = Refused THEN Refused ELSE <<lead + 31>> \o t
ZeroIdent == [class |-> 0, cons |-> 0, num |-> <<>>]
DecIdent(s) ==
    IF s = <<>> THEN Bad(ZeroIdent)
    ELSE LET b == s[1]
             id(n) == [class |-> b \div 64, cons |-> (b \div 32) % 2, num |-> n]
         IN IF b % 32 < 31 THEN Good(id(OfInt(b % 32)), 1)
            ELSE LET t == DecTag(SubSeq(s, 2, Len(s))) IN
                 IF ~t.ok \/ (Len(t.val) <= 1 /\ At(t.val, 1) < 31) THEN Bad(ZeroIdent)
                 ELSE Good(id(t.val), 1 + t.used)

(* definite length octets (8.1.3) *)
EncLen(n) == IF Len(n) <= 1 /\ At(n, 1) < 128 THEN <<At(n, 1)>> ELSE <<128 + Len(n)>> \o Rev(n)
DecLen(s) ==
    IF s = <<>> THEN Bad(<<>>)
    ELSE IF s[1] < 128 THEN Good(Norm(<<s[1]>>), 1)
    ELSE LET k == s[1] - 128 IN
         IF k = 0 \/ k > 8 \/ Len(s) < 1 + k THEN Bad(<<>>)
         ELSE Good(Norm(Rev(SubSeq(s, 2, 1 + k))), 1 + k)

(* INTEGER (8.3), big-endian and the library's little-endian variant *)
EncU(n) == IF n = <<>> THEN <<0>> ELSE Rev(n)
EncLeU(n) == IF n = <<>> THEN <<0>> ELSE n
EncS(w) == Rev(SignedTrim(w))
EncLeS(w) == SignedTrim(w)
LenOK(s, len) == IsSmall(len) /\ ToInt(len) >= 1 /\ ToInt(len) <= 8 /\ ToInt(len) <= Len(s)
DecU(s, len) == IF ~LenOK(s, len) THEN Bad(<<>>) ELSE Good(Norm(Rev(SubSeq(s, 1, ToInt(len)))), ToInt(len))
DecLeU(s, len) == IF ~LenOK(s, len) THEN Bad(<<>>) ELSE Good(Norm(SubSeq(s, 1, ToInt(len))), ToInt(len))
Zero8 == Rep(0, 8)
DecS(s, len) == IF ~LenOK(s, len) THEN Bad(Zero8) ELSE Good(SignExtend(Rev(SubSeq(s, 1, ToInt(len))), 8), ToInt(len))
DecLeS(s, len) == IF ~LenOK(s, len) THEN Bad(Zero8) ELSE Good(SignExtend(SubSeq(s, 1, ToInt(len)), 8), ToInt(len))
(* contents longer than the minimum: left padding *)
EncUPad(n, k) == IF k < 1 \/ k > 8 THEN Refused ELSE Rev(PadTo(n, k))

EncBool(b) == b                                    \* <<0>> or <<1>>
DecBool(s, len) == IF len # <<1>> \/ s = <<>> THEN Bad(<<0>>) ELSE Good(<<IF s[1] = 0 THEN 0 ELSE 1>>, 1)
DecNull(s, len) == IF len = <<>> THEN Good(<<>>, 0) ELSE Bad(<<>>)

(* LEB128 *)
EncLeb(n) ==
    IF ~Below2p56(n) THEN Refused
    ELSE LET b == Bits(n)
             g == Groups(SubSeq(b, 1, HiNZ(b, Len(b))), 7)
             m == IF g = <<>> THEN <<0>> ELSE g
         IN [i \in 1..Len(m) |-> m[i] + (IF i < Len(m) THEN 128 ELSE 0)]
DecLeb(s) ==
    LET k == GroupEnd(s, 1) IN
    IF k = 0 THEN Bad(<<>>)
    ELSE Good(NatOfBits([j \in 1..(7 * k) |-> (s[(j - 1) \div 7 + 1] \div P2[((j - 1) % 7) + 1]) % 2]), k)

(* VLU: k-1 low one bits, a zero bit, then 7k bits of the value; k octets, little-endian *)
VluLen(n) == LET b == Bits(n)
                 g == (HiNZ(b, Len(b)) + 6) \div 7
             IN IF g = 0 THEN 1 ELSE g
EncVlu(n) ==
    IF ~Below2p56(n) THEN Refused
    ELSE LET k == VluLen(n)  b == Bits(n)
         IN Octets([i \in 1..(8 * k) |-> IF i < k THEN 1 ELSE IF i = k THEN 0 ELSE At(b, i - k)])
RECURSIVE Ones(_, _)
Ones(x, k) == IF k = 8 THEN 8 ELSE IF (x \div P2[k + 1]) % 2 = 0 THEN k ELSE Ones(x, k + 1)
DecVlu(s) ==
    IF s = <<>> THEN Bad(<<>>)
    ELSE LET k == Ones(s[1], 0) + 1 IN
         IF k > 8 \/ Len(s) < k THEN Bad(<<>>)
         ELSE LET b == Bits(SubSeq(s, 1, k)) IN Good(NatOfBits(SubSeq(b, k + 1, 8 * k)), k)
===============================================================================
