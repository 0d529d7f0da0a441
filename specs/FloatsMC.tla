-------------------------------- MODULE FloatsMC -------------------------------
(* Every float of a miniature format (ExpBits, ManBits): REAL and vf128 round-trip, what is      *)
(* written is the shortest or a documented choice, foreign encodings of the same value decode to  *)
(* it, and reading into a narrower format (NExp, NMan) truncates towards zero.                    *)
EXTENDS Floats, FiniteSets
CONSTANTS NExp, NMan
W == INSTANCE Floats
S == INSTANCE Floats WITH ExpBits <- NExp, ManBits <- NMan
VARIABLES f, s, step
Bools(n) == [1..n -> 0..1]
Floats0 == [sign : 0..1, exp : 0..ExpMask, mant : Bools(ManBits)]
Strings == {<<a>> : a \in 0..255} \cup {<<a, b>> : a \in 128..255, b \in 0..255}
Init == /\ step = 0
        /\ \/ f \in Floats0 /\ s = <<>>
           \/ f = Zero(0) /\ s \in Strings
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<f, s>>
Spec == Init /\ [][Next]_<<f, s, step>>
Same(a, b) == a = b \/ (IsNaN(a) /\ IsNaN(b))
Finite == s = <<>> /\ ~IsNaN(f) /\ ~IsInf(f) /\ ~IsZero(f)
R == EncReal(f)
V == EncVf(f)

RealRoundTrip == LET d == DecReal(R, OfInt(Len(R))) IN d.ok /\ d.used = Len(R) /\ Same(d.val, f)
(* X.690 11.3.1: no leading zero octet in the mantissa, mantissa odd, exponent as short as can be *)
RealMinimal == Finite => LET el == (R[1] % 4) + 1 IN
    /\ R[Len(R)] % 2 = 1
    /\ R[2 + el] # 0
    /\ el > 1 => ~((R[2] = 0 /\ R[3] < 128) \/ (R[2] = 255 /\ R[3] >= 128))
(* the same value written with other bases and scale factors *)
Bases == {<<0, 1>>, <<1, 3>>, <<2, 4>>}
Foreign == Finite => \A bs \in Bases : \A sc \in 0..3 :
    LET lo == OddExp(f) - sc
        e == (lo - (lo % bs[2])) \div bs[2]        \* round down, shift the mantissa up instead
        sh == lo % bs[2]
        m == Octets(Rep(0, sh) \o Odd(f))
        eo == ExpOctets(e)
        c == <<128 + 64 * f.sign + 16 * bs[1] + 4 * sc + (Len(eo) - 1)>> \o Rev(eo) \o Rev(m)
        c3 == <<128 + 64 * f.sign + 16 * bs[1] + 4 * sc + 3, Len(eo)>> \o Rev(eo) \o <<0>> \o Rev(m)
    IN /\ DecReal(c, OfInt(Len(c))) = Good(f, Len(c))
       /\ DecReal(c3, OfInt(Len(c3))) = Good(f, Len(c3))
(* values just outside the format are refused, not rounded *)
Refuses == Finite =>
    LET eo == ExpOctets(OddExp(f) - (ManBits + 1))
        m == Rev(Octets(<<1>> \o Rep(0, ManBits) \o Odd(f)))        \* one bit too many
        c == <<128 + (Len(eo) - 1)>> \o Rev(eo) \o m
    IN ~DecReal(c, OfInt(Len(c))).ok

VfRoundTrip == LET d == DecVf(V) IN d.ok /\ d.used = Len(V) /\ Same(d.val, f)
VfPrefix == \A n \in 0..(Len(V) - 1) : ~DecVf(SubSeq(V, 1, n)).ok
(* nothing the format document allows is shorter: every short octet string is a state too, and     *)
(* what it denotes has an encoding that is no longer                                              *)
(* the same octets read into a format with more of everything *)
Wide == INSTANCE Floats WITH ExpBits <- ExpBits + 2, ManBits <- 12
Truncates == LET d == Wide!DecVf(s) IN
    d.ok /\ ~Wide!IsNaN(d.val) /\ ~Wide!IsInf(d.val) /\ ~Wide!IsZero(d.val)
         /\ ~Representable(Wide!Odd(d.val), Wide!OddExp(d.val))
VfShortest == (s # <<>>) => LET d == DecVf(s) IN
    (d.ok /\ d.val.sign # 2 /\ d.used = Len(s) /\ ~Truncates) => Len(EncVf(d.val)) <= Len(s)
(* narrowing: the narrow value is the largest one not above the magnitude *)
Scale == 40                                         \* common denominator 2^Scale covers both formats
RECURSIVE IntVal(_, _)
IntVal(m, i) == IF i > Len(m) THEN 0 ELSE m[i] + 2 * IntVal(m, i + 1)
Mag(x, mb, eb, bias) == LET full == IntVal(x.mant, 1) + (IF x.exp > 0 THEN TwoTo(mb) ELSE 0)
                            sc == (IF x.exp > 0 THEN x.exp ELSE 1) - bias - mb
                        IN [m |-> full, e |-> sc]
LeMag(a, b) == LET d == a.e - b.e IN IF a.m = 0 THEN TRUE ELSE IF b.m = 0 THEN FALSE
               ELSE IF d >= 0 THEN (d < 20 /\ a.m * TwoTo(d) <= b.m) ELSE (-d >= 20 \/ a.m <= b.m * TwoTo(-d))
NFloats == {x \in [sign : {f.sign}, exp : 0..S!ExpMask, mant : Bools(NMan)] : x.exp < S!ExpMask}
MagF == Mag(f, ManBits, ExpBits, Bias)
MagN(x) == Mag(x, NMan, NExp, S!Bias)
Narrow == S!DecVf(V)
Narrowing == /\ Narrow.ok /\ Narrow.used = Len(V)
             /\ IsNaN(f) <=> S!IsNaN(Narrow.val)
             /\ (~IsNaN(f) => Narrow.val.sign = f.sign)
             /\ Finite =>
                 IF S!IsInf(Narrow.val) THEN TopExp(f) > S!Bias
                 ELSE /\ TopExp(f) <= S!Bias
                      /\ LeMag(MagN(Narrow.val), MagF)
                      /\ \A x \in NFloats : LeMag(MagN(x), MagF) => LeMag(MagN(x), MagN(Narrow.val))
===============================================================================
