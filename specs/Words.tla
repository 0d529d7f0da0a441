--------------------------------- MODULE Words ---------------------------------
(* Counting bits and ordering octets, for words of w bits.  A word is a natural (octets, least first). *)
EXTENDS Bytes
WordBits(v, w) == Bits(PadTo(v, w \div 8))
RECURSIVE CountOnes(_, _)
CountOnes(b, i) == IF i > Len(b) THEN 0 ELSE b[i] + CountOnes(b, i + 1)
Popcnt(v, w) == CountOnes(WordBits(v, w), 1)
Clz(v, w) == w - BitLen(v)
RECURSIVE LowZeros(_, _)
LowZeros(b, i) == IF i > Len(b) THEN Len(b) ELSE IF b[i] = 1 THEN i - 1 ELSE LowZeros(b, i + 1)
Ctz(v, w) == LowZeros(WordBits(v, w), 1)
Little(v, w) == PadTo(v, w \div 8)                  \* octets in memory
Big(v, w) == Rev(Little(v, w))
Swap(v, w) == Norm(Big(v, w))
===============================================================================
