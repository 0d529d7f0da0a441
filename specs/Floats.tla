-------------------------------- MODULE Floats -------------------------------
(* Binary floating point with ExpBits exponent bits and ManBits stored mantissa bits, and its *)
(* two encodings: X.690 REAL (8.5) and vf128 (docs/vf128.md).  A float is                     *)
(* [sign, exp, mant]: exp an integer, mant a bit sequence (lsb first) of length ManBits.      *)
(* A finite non-zero value is also seen as sign * odd * 2^e with `odd` an odd bit sequence.   *)
EXTENDS Ber
CONSTANTS ExpBits, ManBits
RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
ExpMask == TwoTo(ExpBits) - 1
Bias == TwoTo(ExpBits - 1) - 1
ZeroMant == Rep(0, ManBits)

FloatOfBits(b) == [mant |-> SubSeq(b, 1, ManBits),
                   exp |-> BitsToInt(SubSeq(b, ManBits + 1, ManBits + ExpBits), 1),
                   sign |-> b[ManBits + ExpBits + 1]]
BitsOfFloat(f) == f.mant \o IntBits(f.exp, ExpBits) \o <<f.sign>>
FloatOfOctets(w) == FloatOfBits(Bits(w))
OctetsOfFloat(f) == Octets(BitsOfFloat(f))

IsNaN(f) == f.exp = ExpMask /\ f.mant # ZeroMant
IsInf(f) == f.exp = ExpMask /\ f.mant = ZeroMant
IsZero(f) == f.exp = 0 /\ f.mant = ZeroMant
Inf(s) == [sign |-> s, exp |-> ExpMask, mant |-> ZeroMant]
AnyFloat == [sign |-> 2, exp |-> 0, mant |-> <<>>]
Zero(s) == [sign |-> s, exp |-> 0, mant |-> ZeroMant]
(* the significand with its leading digit, lsb weight 2^ScaleOf *)
Full(f) == f.mant \o (IF f.exp > 0 THEN <<1>> ELSE <<>>)
ScaleOf(f) == (IF f.exp > 0 THEN f.exp ELSE 1) - Bias - ManBits
(* canonical form of a finite non-zero value: odd significand and its scale *)
Odd(f) == LET m == Full(f) IN SubSeq(m, TrailingZeros(m) + 1, HiNZ(m, Len(m)))
OddExp(f) == ScaleOf(f) + TrailingZeros(Full(f))
TopExp(f) == OddExp(f) + Len(Odd(f)) - 1           \* exponent of the leading digit

(* the float denoting sign * m * 2^e exactly, where m is an odd bit sequence without leading zeros *)
Representable(m, e) ==
    LET top == e + Len(m) - 1 IN
    Len(m) <= ManBits + 1 /\ top <= Bias /\ e >= 1 - Bias - ManBits
MakeFloat(s, m, e) ==
    LET top == e + Len(m) - 1 IN
    IF top >= 1 - Bias
    THEN [sign |-> s, exp |-> top + Bias, mant |-> Rep(0, ManBits + 1 - Len(m)) \o SubSeq(m, 1, Len(m) - 1)]
    ELSE LET sh == e - (1 - Bias - ManBits) IN
         [sign |-> s, exp |-> 0, mant |-> PadTo(Rep(0, sh) \o m, ManBits)]
(* the same truncated towards zero, saturating to infinity: reading from a wider format *)
TruncFloat(s, m, e) ==
    LET top == e + Len(m) - 1
        lsb == IF top >= 1 - Bias THEN top - ManBits ELSE 1 - Bias - ManBits   \* weight of the last kept bit
        cut == IF e < lsb THEN lsb - e ELSE 0
        kept == SubSeq(m, cut + 1, Len(m))
    IN IF top > Bias THEN Inf(s)
       ELSE IF kept = <<>> THEN Zero(s)
       ELSE MakeFloat(s, SubSeq(kept, TrailingZeros(kept) + 1, Len(kept)), e + cut + TrailingZeros(kept))

(* fewest octets of a small signed integer, little-endian *)
ExpOctets(x) == SignedTrim(SignedOfInt(x, 4))

(* ---------------------------------------------------------------- X.690 REAL *)
EncReal(f) ==
    IF IsNaN(f) THEN <<66>>
    ELSE IF IsInf(f) THEN <<64 + f.sign>>
    ELSE IF IsZero(f) THEN (IF f.sign = 1 THEN <<67>> ELSE <<128, 0, 0>>)
    ELSE LET e == ExpOctets(OddExp(f)) IN
         <<128 + 64 * f.sign + (Len(e) - 1)>> \o Rev(e) \o Rev(Octets(Odd(f)))

NaNValue == [sign |-> 0, exp |-> ExpMask, mant |-> [ZeroMant EXCEPT ![ManBits] = 1]]
RealResult(f, n) == Good(f, n)
(* the binary contents octets c (first octet included) *)
ClampExp(w) ==                                     \* exponent octets, big-endian, as an integer; far values clamp
    LET t == SignedTrim(Rev(w)) IN
    IF Len(t) <= 2 THEN SignedToInt(t) ELSE IF Negative(t) THEN -40000 ELSE 40000
DecRealBinary(c) ==
    LET b == c[1]
        base == (b \div 16) % 4
        log2 == CASE base = 0 -> 1 [] base = 1 -> 3 [] OTHER -> 4
        form == b % 4
        hdr == IF form = 3 THEN 2 ELSE 1
        elen == IF form < 3 THEN form + 1 ELSE IF Len(c) >= 2 THEN c[2] ELSE 0
        mlen == Len(c) - hdr - elen
    IN IF base = 3 \/ elen < 1 \/ elen > 8 \/ mlen < 1 \/ mlen > 8 THEN Bad(Zero(0))
       ELSE LET e == ClampExp(SubSeq(c, hdr + 1, hdr + elen)) * log2 + ((b \div 4) % 4)
                m == Bits(Rev(SubSeq(c, hdr + elen + 1, Len(c))))
                z == TrailingZeros(m)
                odd == SubSeq(m, z + 1, HiNZ(m, Len(m)))
                s == (b \div 64) % 2
            IN IF odd = <<>> THEN Good(Zero(s), Len(c))
               ELSE IF ~Representable(odd, e + z) THEN Bad(Zero(0))
               ELSE Good(MakeFloat(s, odd, e + z), Len(c))
DecReal(s, len) ==
    IF ~IsSmall(len) \/ ToInt(len) > Len(s) THEN Bad(Zero(0))
    ELSE IF len = <<>> THEN Good(Zero(0), 0)
    ELSE LET c == SubSeq(s, 1, ToInt(len)) IN
         IF c[1] >= 128 THEN DecRealBinary(c)
         ELSE IF Len(c) # 1 THEN Bad(Zero(0))
         ELSE CASE c[1] = 64 -> Good(Inf(0), 1) [] c[1] = 65 -> Good(Inf(1), 1)
              [] c[1] = 66 -> Good(NaNValue, 1) [] c[1] = 67 -> Good(Zero(1), 1)
              [] OTHER -> Bad(Zero(0))

(* ---------------------------------------------------------------- vf128 *)
(* inline float7: value is k/16 for k in 0..15 (exponent 0), 16+k (1), 2*(16+k) (2) sixteenths *)
InlineCode(f) ==                                   \* -1 when not inlinable (finite, non-zero)
    LET m == Odd(f)  e == OddExp(f)  top == TopExp(f) IN
    IF top > 1 \/ e < -4 \/ (top >= 0 /\ Len(m) > 5) THEN -1
    ELSE IF top >= 0 THEN 16 * (top + 1) + (BitsToInt(Rep(0, 5 - Len(m)) \o m, 1) - 16)
    ELSE BitsToInt(Rep(0, e + 4) \o m, 1)
EncVf(f) ==
    LET sb == 64 * f.sign IN
    IF IsNaN(f) THEN <<sb + 48 + 8>>
    ELSE IF IsInf(f) THEN <<sb + 48>>
    ELSE IF IsZero(f) THEN <<sb>>
    ELSE IF InlineCode(f) >= 0 THEN <<sb + InlineCode(f)>>
    ELSE LET m == Odd(f)  top == TopExp(f)
             eo == ExpOctets(top)
             mo == Octets(m)
             fo == Octets(Rep(0, -top - 1) \o m)   \* exponent folded in as trailing zeros
         IN IF Len(m) = 1 THEN <<128 + sb + 16 * Len(eo)>> \o eo
            ELSE IF top \in -8..-1 /\ ~(Len(mo) + Len(eo) < Len(fo))
                 THEN <<128 + sb + Len(fo)>> \o fo
            ELSE <<128 + sb + 16 * Len(eo) + Len(mo)>> \o eo \o mo

(* what any vf128 octets denote in this format; "any" for what the document leaves open *)
DecVf(s) ==
    IF s = <<>> THEN Bad(Zero(0))
    ELSE LET p == s[1]
             sg == (p \div 64) % 2
             el == (p \div 16) % 4
             ml == p % 16
         IN IF p < 128 THEN
                IF el = 3 THEN (IF ml = 0 THEN Good(Inf(sg), 1) ELSE Good(NaNValue, 1))
                ELSE LET k == IF el = 0 THEN ml ELSE (16 + ml) * TwoTo(el - 1)
                         b == IntBits(k, 6)  z == TrailingZeros(b)
                     IN IF k = 0 THEN Good(Zero(sg), 1)
                        ELSE Good(TruncFloat(sg, SubSeq(b, z + 1, HiNZ(b, 6)), z - 4), 1)
            ELSE IF el = 0 /\ ml = 0 THEN [ok |-> TRUE, val |-> AnyFloat, used |-> 1]      \* reserved
            ELSE IF Len(s) < 1 + el + ml \/ ml > 8 THEN Bad(Zero(0))
            ELSE LET e == IF el = 0 THEN 0 ELSE SignedToInt(SubSeq(s, 2, 1 + el))
                     mo == SubSeq(s, 2 + el, 1 + el + ml)
                     b == Bits(mo)
                     z == TrailingZeros(b)
                     odd == SubSeq(b, z + 1, HiNZ(b, Len(b)))
                     n == 1 + el + ml
                 IN IF ml > 0 /\ odd = <<>> THEN [ok |-> TRUE, val |-> AnyFloat, used |-> n]   \* zero mantissa octets
                    ELSE IF ml = 0 THEN Good(TruncFloat(sg, <<1>>, e), n)
                    ELSE LET top == IF el = 0 THEN -z - 1 ELSE e IN
                         Good(TruncFloat(sg, odd, top - (Len(odd) - 1)), n)
===============================================================================
