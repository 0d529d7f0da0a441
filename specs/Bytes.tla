-------------------------------- MODULE Bytes --------------------------------
(* Octet and bit sequences.  Unsigned words of any width are "naturals": little-endian octet  *)
(* sequences without most significant zero octets (zero is the empty sequence), because TLC's *)
(* integers have 32 bits.  Bit sequences are little-endian too (index 1 is the lsb).          *)
EXTENDS Integers, Sequences
LOCAL INSTANCE TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>

RECURSIVE HiNZ(_, _)
HiNZ(s, i) == IF i = 0 THEN 0 ELSE IF s[i] # 0 THEN i ELSE HiNZ(s, i - 1)
Norm(s) == SubSeq(s, 1, HiNZ(s, Len(s)))          \* drop most significant zeros
RECURSIVE LoNZ(_, _)
LoNZ(s, i) == IF i > Len(s) THEN i ELSE IF s[i] # 0 THEN i ELSE LoNZ(s, i + 1)
TrailingZeros(s) == LoNZ(s, 1) - 1                 \* low-order zeros (all of them for zero)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rep(x, n) == [i \in 1..n |-> x]
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
PadTo(s, n) == IF Len(s) >= n THEN s ELSE s \o Rep(0, n - Len(s))

Bits(s) == [i \in 1..(8 * Len(s)) |-> (s[(i - 1) \div 8 + 1] \div P2[((i - 1) % 8) + 1]) % 2]
Group(b, k, w) ==                                  \* value of the k-th (from 0) w-bit group, w <= 8
    LET o == k * w IN
    At(b, o+1) + (IF w > 1 THEN 2*At(b, o+2) ELSE 0) + (IF w > 2 THEN 4*At(b, o+3) ELSE 0)
    + (IF w > 3 THEN 8*At(b, o+4) ELSE 0) + (IF w > 4 THEN 16*At(b, o+5) ELSE 0)
    + (IF w > 5 THEN 32*At(b, o+6) ELSE 0) + (IF w > 6 THEN 64*At(b, o+7) ELSE 0)
    + (IF w > 7 THEN 128*At(b, o+8) ELSE 0)
Groups(b, w) == [k \in 1..((Len(b) + w - 1) \div w) |-> Group(b, k - 1, w)]
Octets(b) == Groups(b, 8)                          \* octets of a bit sequence
NatOfBits(b) == Norm(Octets(b))
BitLen(n) == LET b == Bits(n) IN HiNZ(b, Len(b))   \* number of significant bits of a natural

(* small TLC integers <-> naturals *)
RECURSIVE OfInt(_)
OfInt(i) == IF i = 0 THEN <<>> ELSE <<i % 256>> \o OfInt(i \div 256)
IsSmall(n) == Len(n) < 4 \/ (Len(n) = 4 /\ n[4] < 64)
ToInt(n) == At(n, 1) + 256 * At(n, 2) + 65536 * At(n, 3) + 16777216 * At(n, 4)
RECURSIVE BitsToInt(_, _)
BitsToInt(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + 2 * BitsToInt(b, i + 1)
RECURSIVE IntBits(_, _)
IntBits(v, n) == IF n = 0 THEN <<>> ELSE <<v % 2>> \o IntBits(v \div 2, n - 1)

(* arithmetic on naturals with a small operand *)
RECURSIVE AddAt(_, _, _)
AddAt(n, i, c) == IF c = 0 THEN n
                  ELSE IF i > Len(n) THEN AddAt(Append(n, c % 256), i + 1, c \div 256)
                  ELSE AddAt([n EXCEPT ![i] = (n[i] + c) % 256], i + 1, (n[i] + c) \div 256)
AddSmall(n, c) == AddAt(n, 1, c)
RECURSIVE SubAt(_, _, _)
SubAt(n, i, c) == IF c = 0 \/ i > Len(n) THEN n
                  ELSE LET d == n[i] - (c % 256) IN
                       IF d >= 0 THEN SubAt([n EXCEPT ![i] = d], i + 1, c \div 256)
                       ELSE SubAt([n EXCEPT ![i] = d + 256], i + 1, c \div 256 + 1)
SubSmall(n, c) == Norm(SubAt(n, 1, c))             \* n >= c
RECURSIVE MulAt(_, _, _, _)
MulAt(n, i, m, c) == IF i > Len(n) THEN (IF c = 0 THEN n ELSE MulAt(Append(n, 0), i, m, c))
                     ELSE MulAt([n EXCEPT ![i] = (n[i] * m + c) % 256], i + 1, m, (n[i] * m + c) \div 256)
MulSmall(n, m) == Norm(MulAt(n, 1, m, 0))
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET s == At(a, i) + At(b, i) + c IN <<s % 256>> \o AddFrom(a, b, i + 1, s \div 256)
Add(a, b) == IF Len(b) < 4 THEN (IF b = <<>> THEN a ELSE AddSmall(a, ToInt(b))) ELSE AddFrom(a, b, 1, 0)
RECURSIVE MulFrom(_, _, _)                          \* a times the octets of b from the i-th on
MulFrom(a, b, i) == IF i > Len(b) THEN <<>> ELSE Add(MulSmall(a, b[i]), LET r == MulFrom(a, b, i + 1) IN IF r = <<>> THEN r ELSE <<0>> \o r)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Norm(MulFrom(a, b, 1))
RECURSIVE DivAt(_, _, _, _)
DivAt(n, i, d, r) == IF i = 0 THEN <<Norm(n), r>>
                     ELSE DivAt([n EXCEPT ![i] = (r * 256 + n[i]) \div d], i - 1, d, (r * 256 + n[i]) % d)
DivMod(n, d) == DivAt(n, Len(n), d, 0)             \* <<quotient, remainder>>

RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
NatLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessAt(a, b, Len(a))

Below2p56(n) == Len(n) <= 7
IsOctets(s) == \A i \in 1..Len(s) : s[i] \in 0..255

(* two's complement words of eight little-endian octets *)
Negative(w) == w[Len(w)] >= 128
RECURSIVE SignedTrim(_)
SignedTrim(w) == LET k == Len(w) IN                 \* fewest octets with the same two's complement value
    IF k = 1 THEN w
    ELSE IF (w[k] = 0 /\ w[k-1] < 128) \/ (w[k] = 255 /\ w[k-1] >= 128) THEN SignedTrim(SubSeq(w, 1, k - 1))
    ELSE w
SignExtend(s, n) == s \o Rep(IF Negative(s) THEN 255 ELSE 0, n - Len(s))
(* small signed TLC integer <-> two's complement octets *)
SignedOfInt(i, n) == LET RECURSIVE F(_, _) F(x, k) == IF k = 0 THEN <<>> ELSE <<x % 256>> \o F(x \div 256, k - 1) IN F(i, n)
SignedToInt(s) ==                                   \* at most three octets
    LET v == ToInt(s) IN IF Negative(s) THEN v - (CASE Len(s) = 1 -> 256 [] Len(s) = 2 -> 65536 [] OTHER -> 16777216) ELSE v
===============================================================================
