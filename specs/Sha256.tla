--------------------------------- MODULE Sha256 --------------------------------
(* FIPS 180-4 SHA-224 and SHA-256 of a sequence of octets.  A 32-bit word is a pair of 16-bit    *)
(* halves <<high, low>>.  Constants: fractional parts of the cube and square roots of the first    *)
(* primes (SHA-224 initial state: low words of the ninth to sixteenth primes' square roots).       *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt
LOCAL Two == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
LOCAL Rotr16(w) == <<w[2], w[1]>>
LOCAL RotrLow(w, d) == <<w[1] \div Two[d] + (w[2] % Two[d]) * Two[16 - d], w[2] \div Two[d] + (w[1] % Two[d]) * Two[16 - d]>>
Rotr(w, d) == IF d < 16 THEN RotrLow(w, d) ELSE IF d = 16 THEN Rotr16(w) ELSE RotrLow(Rotr16(w), d - 16)
Shr(w, d) == <<w[1] \div Two[d], w[2] \div Two[d] + (w[1] % Two[d]) * Two[16 - d]>>     \* d < 16
XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
AddW(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + lo \div 65536) % 65536, lo % 65536>>
Xor3(a, b, c) == XorW(a, XorW(b, c))
Ch(x, y, z) == XorW(AndW(x, y), AndW(NotW(x), z))
Maj(x, y, z) == Xor3(AndW(x, y), AndW(x, z), AndW(y, z))
BSig0(x) == Xor3(Rotr(x, 2), Rotr(x, 13), Rotr(x, 22))
BSig1(x) == Xor3(Rotr(x, 6), Rotr(x, 11), Rotr(x, 25))
SSig0(x) == Xor3(Rotr(x, 7), Rotr(x, 18), Shr(x, 3))
SSig1(x) == Xor3(Rotr(x, 17), Rotr(x, 19), Shr(x, 10))
K == <<<<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>, <<14678, 49755>>, <<23025,
      4593>>, <<37439, 33444>>, <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>,
      <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>, <<58523,
      27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>,
      <<23728, 43484>>, <<30457, 35034>>, <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985,
      32711>>, <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>,
      <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>, <<33218,
      51502>>, <<37490, 11397>>, <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>,
      <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>, <<6564, 49430>>, <<7735,
      27656>>, <<10056, 30540>>, <<13488, 48309>>, <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>,
      <<26670, 28659>>, <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>, <<37054,
      65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>
H256 == <<<<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>, <<20750, 21119>>, <<39685,
      26764>>, <<8067, 55723>>, <<23520, 52505>>>>
H224 == <<<<49413, 40664>>, <<13948, 54535>>, <<12400, 56599>>, <<63246, 22841>>, <<65472, 2865>>, <<26712,
      5393>>, <<25849, 36775>>, <<48890, 20388>>>>
LOCAL Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
LOCAL BlockWords(s) == [i \in 1..16 |-> <<s[4*i - 3] * 256 + s[4*i - 2], s[4*i - 1] * 256 + s[4*i]>>]
LOCAL Extend(w, t) == Append(w, AddW(AddW(SSig1(w[t - 2]), w[t - 7]), AddW(SSig0(w[t - 15]), w[t - 16])))
Schedule(s) == FoldLeft(Extend, BlockWords(s), Upto(17, 64))
LOCAL Round(h, wk) ==
    LET t1 == AddW(AddW(h[8], BSig1(h[5])), AddW(Ch(h[5], h[6], h[7]), wk))
        t2 == AddW(BSig0(h[1]), Maj(h[1], h[2], h[3]))
    IN <<AddW(t1, t2), h[1], h[2], h[3], AddW(h[4], t1), h[5], h[6], h[7]>>
Compress(h, s) == LET w == Schedule(s)
                      r == FoldLeft(Round, h, [t \in 1..64 |-> AddW(K[t], w[t])])
                  IN [i \in 1..8 |-> AddW(h[i], r[i])]
(* 5.1.1: a one bit, zeros, and the bit length in 64 bits (messages here are below 2^27 octets) *)
Pad(n) == <<128>> \o [i \in 1..((119 - (n % 64)) % 64) |-> 0]
          \o <<0, 0, 0, 0, (8 * n) \div 16777216, ((8 * n) \div 65536) % 256, ((8 * n) \div 256) % 256, (8 * n) % 256>>
LOCAL Blocks(s) == [i \in 1..(Len(s) \div 64) |-> SubSeq(s, 64 * i - 63, 64 * i)]
Digest(init, msg, n) == LET h == FoldLeft(Compress, init, Blocks(msg \o Pad(Len(msg)))) IN
    [i \in 1..n |-> LET x == h[(i + 3) \div 4]  y == x[IF (i - 1) % 4 < 2 THEN 1 ELSE 2] IN
                    IF i % 2 = 1 THEN y \div 256 ELSE y % 256]
Sha256(msg) == Digest(H256, msg, 32)
Sha224(msg) == Digest(H224, msg, 28)
===============================================================================
