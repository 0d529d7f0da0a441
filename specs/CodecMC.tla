------------------------------- MODULE CodecMC ---------------------------------
(* Boundary exploration of the codecs: for every kind, entry point, boundary value, capacity   *)
(* slack and truncation point, encode into a buffer of exactly that size and decode it again.  *)
(* Every behaviour is printed as a script for the real code.                                   *)
EXTENDS Codec, TLC, Json
CONSTANTS Kinds,       \* which codecs
          Ders,        \* explicit DER tags to use (numbers), or {} for contents only
          Shorts,      \* one more than the octets the buffer is too short by (0: one to spare)
          Cuts,        \* TRUE: also decode after every truncation of the encoded octets
          Coarse       \* TRUE: a few values per kind instead of all boundaries
VARIABLES job, phase, out, hist
vars == <<buf, off, job, phase, out, hist>>

N(x) == <<"n", x>>                                 \* script operand: unsigned number
H(x) == <<"h", x>>                                 \* script operand: octets

OneBit(k) == NatOfBits(Rep(0, k) \o <<1>>)
AllOnes(k) == NatOfBits(Rep(1, k))
Exps == IF Coarse THEN {0, 6, 7, 8, 13, 14, 15, 16, 20, 27, 28, 31, 32, 48, 49, 55, 56, 63} ELSE 0..63
Words == {<<>>} \cup UNION {{OneBit(k), AllOnes(k), AddSmall(OneBit(k), 1), AllOnes(k + 1)} : k \in Exps}
Compl(w) == [i \in 1..8 |-> 255 - w[i]]
Words8 == LET W == {PadTo(w, 8) : w \in Words} IN W \cup {Compl(w) : w \in W}
Nums == Words
Classes == 0..3
Idents == {[class |-> c, cons |-> s, num |-> n] : c \in Classes, s \in 0..1, n \in
             IF Coarse THEN {<<30>>, <<31>>, <<127>>, <<128>>, <<255, 255>>} ELSE
             {w \in Words : Below2p56(w)} \cup {<<k>> : k \in 28..34}}
Dbl(s, e, m) == F64!OctetsOfFloat([sign |-> s, exp |-> e, mant |-> m])
Sgl(s, e, m) == F32!OctetsOfFloat([sign |-> s, exp |-> e, mant |-> m])
Mants(n) == {Rep(0, n), Rep(1, n), <<1>> \o Rep(0, n - 1), Rep(0, n - 1) \o <<1>>,
             Rep(0, n - 4) \o <<1, 1, 1, 1>>, Rep(0, n - 5) \o <<1, 0, 0, 0, 0>>, Rep(0, n - 8) \o <<1, 0, 1, 0, 0, 0, 0, 0>>}
Doubles == {Dbl(s, e, m) : s \in 0..1, e \in IF Coarse THEN {0, 1, 1000, 1022, 1023, 1025, 1203, 2046, 2047}
                                            ELSE {0, 1, 2, 895, 896, 970, 971} \cup (1007..1030) \cup {1074, 1075, 1076, 1202, 1203, 2045, 2046, 2047}, m \in Mants(52)}
Singles == {Sgl(s, e, m) : s \in 0..1, e \in IF Coarse THEN {0, 1, 120, 126, 127, 129, 254, 255}
                                            ELSE {0, 1, 2} \cup (112..136) \cup {150, 200, 253, 254, 255}, m \in Mants(23)}
Oids == {<<>>, <<<<1>>, <<2>>>>, <<<<>>, <<>>>>, <<<<>>, <<39>>>>, <<<<1>>, <<39>>>>, <<<<2>>, <<>>>>, <<<<2>>, <<40>>>>,
         <<<<2>>, <<47>>>>, <<<<2>>, <<48>>>>, <<<<2>>, <<231, 3>>>>, <<<<2>>, <<175, 255, 255, 255, 255, 255, 255>>>>,
         <<<<1>>, <<2>>, <<72, 3>>, <<141, 187, 1>>, <<1>>>>, <<<<2>>, <<5>>, <<>>, <<127>>, <<128>>, <<>>>>,
         [i \in 1..15 |-> <<1>>], [i \in 1..15 |-> IF i = 1 THEN <<2>> ELSE Rep(255, 6)], [i \in 1..14 |-> <<2>>],
         <<<<2>>, <<1>>, Rep(255, 7)>>, <<<<2>>, <<1>>, Rep(0, 7) \o <<1>>>>, <<<<2>>, <<1>>, <<5>>, Rep(255, 8)>>}
        \cup (IF Coarse THEN {} ELSE {<<<<1>>, <<3>>, w>> : w \in {x \in Words : Len(x) < 8}}
                                     \cup {<<<<2>>, w, <<1>>>> : w \in {x \in Words : Len(x) < 7}})
Strings == {<<>>, <<0>>, <<7, 8, 9>>, [i \in 1..127 |-> i], [i \in 1..128 |-> 255 - i]}
Vals(k) == CASE k \in {"tag", "len", "u64", "leu64", "leb", "vlu"} -> Nums
             [] k \in {"s64", "les64"} -> Words8
             [] k = "ident" -> Idents [] k = "bool" -> {<<0>>, <<1>>} [] k = "null" -> {<<>>}
             [] k = "oid" -> Oids [] k = "octets" -> Strings
             [] k \in {"real", "vf64"} -> Doubles [] k = "vf32" -> Singles
ByVal == {"u64", "s64", "leu64", "les64", "leb", "vlu", "real", "vf64", "vf32"}
HasDer == {"u64", "s64", "bool", "null", "oid", "octets", "real"}
DerByVal == {"u64", "s64", "real"}
Apis(k) == {<<"ptr", -1>>} \cup (IF k \in ByVal THEN {<<"val", -1>>} ELSE {})
           \cup (IF k \in HasDer THEN {<<"der", t>> : t \in Ders} ELSE {})
           \cup (IF k \in DerByVal THEN {<<"derval", t>> : t \in Ders} ELSE {})
Octs(j) == LET c == Encoding(j.k, j.v) IN IF c = Refused \/ j.tag < 0 THEN c ELSE Tagged(j.tag, c)
ContentsLen(j) == IF Encoding(j.k, j.v) = Refused THEN <<>> ELSE OfInt(Len(Encoding(j.k, j.v)))
SelfDelimiting == {"tag", "len", "ident", "leb", "vlu", "vf64", "vf32"}

(* operands of the script's enc command *)
Operands(j) ==
    CASE j.k = "oid" -> <<Len(j.v)>> \o [i \in 1..Len(j.v) |-> N(j.v[i])]
      [] j.k = "octets" -> <<H(j.v)>>
      [] j.k = "null" -> <<>>
      [] j.k = "ident" -> <<j.v.class, j.v.cons, N(j.v.num)>>
      [] OTHER -> <<N(Norm(j.v))>>
NullJob == [k |-> "none", api |-> "none", tag |-> -1, v |-> <<>>, slack |-> 0]
MInit ==
    /\ \E k \in Kinds : \E a \in Apis(k) : \E v \in Vals(k) : \E x \in Shorts : LET s == 1 - x IN
          LET j == [k |-> k, api |-> a[1], tag |-> a[2], v |-> v, slack |-> s]
              need == IF Octs(j) = Refused THEN 9 ELSE Len(Octs(j))
          IN /\ need + s >= 0
             /\ job = j /\ buf = Rep(0, need + s) /\ off = <<>>
             /\ hist = <<<<"new", need + s>>>>
    /\ phase = "start" /\ out = [ret |-> 0, val |-> <<>>]
MEncode ==
    /\ phase = "start" /\ phase' = "encoded"
    /\ hist' = Append(hist, <<"enc", job.k, job.api, job.tag>> \o Operands(job))
    /\ UNCHANGED job
    /\ \E ret \in {0, -1} :
         /\ out' = [ret |-> ret, val |-> <<>>]
         /\ IF ret = 0 THEN Octs(job) # Refused /\ Fits(OfInt(Len(Octs(job)))) /\ buf' = Put(Octs(job)) /\ Advance(Len(Octs(job)))
            ELSE ~(Octs(job) # Refused /\ Fits(OfInt(Len(Octs(job))))) /\ UNCHANGED cvars
MRewind == phase = "encoded" /\ out.ret = 0 /\ phase' = "rewound" /\ Reset /\ hist' = Append(hist, <<"reset">>) /\ UNCHANGED <<job, out>>
MCut == /\ phase = "encoded" /\ out.ret = 0 /\ Cuts /\ phase' = "rewound"
        /\ \E n \in 0..(ToInt(off) - 1) : NewBuf(SubSeq(buf, 1, n)) /\ hist' = Append(hist, <<"buf", H(SubSeq(buf, 1, n))>>)
        /\ out' = [out EXCEPT !.ret = 1] /\ UNCHANGED job
Result == IF job.tag < 0 THEN Decoding(job.k, Rest, ContentsLen(job))
          ELSE LET h == Header(Rest, job.tag) IN
               IF ~h.ok THEN Bad(<<>>) ELSE LET r == Decoding(job.k, SubSeq(Rest, h.used + 1, Len(Rest)), h.len) IN [r EXCEPT !.used = h.used + r.used]
OctetsResult == LET h == IF job.tag < 0 THEN [ok |-> TRUE, len |-> ContentsLen(job), used |-> 0] ELSE Header(Rest, job.tag)
                    s == SubSeq(Rest, h.used + 1, Len(Rest))
                IN IF ~h.ok \/ ~IsSmall(h.len) \/ ToInt(h.len) > Len(s) THEN Bad(<<>>)
                   ELSE Good(SubSeq(s, 1, ToInt(h.len)), h.used + ToInt(h.len))
Res == IF job.k = "octets" THEN OctetsResult ELSE Result
MDecode ==
    /\ phase = "rewound" /\ phase' = IF out.ret = 1 THEN "cut" ELSE "done"
    /\ out' = [ret |-> IF Res.ok THEN 0 ELSE -1, val |-> Res.val]
    /\ IF Res.ok THEN Advance(Res.used) ELSE UNCHANGED off
    /\ hist' = Append(hist, IF job.k = "octets"
                            THEN <<"octr", IF job.tag < 0 THEN "ber" ELSE "der", job.tag, N(ContentsLen(job)), Len(job.v), 0>>
                            ELSE <<"dec", job.k, job.api, job.tag, N(ContentsLen(job))>>)
    /\ UNCHANGED <<job, buf>>
MNext == MEncode \/ MRewind \/ MCut \/ MDecode
MSpec == MInit /\ [][MNext]_vars
View == <<job, phase, buf, off, out>>

(* values below 2^56 and everything else the format holds are encodable; others are not *)
Encodable(k, v) == CASE k \in {"tag", "leb", "vlu"} -> Below2p56(v) [] k = "ident" -> Below2p56(v.num)
                     [] k = "oid" -> v = <<>> \/ (Permitted(v) /\ Below2p56(AddSmall(v[2], 40 * At(v[1], 1)))) [] OTHER -> TRUE
EncodesWhatFits == phase = "encoded" => (out.ret = 0 <=> (Encodable(job.k, job.v) /\ job.slack >= 0))
RoundTrip == phase = "done" =>
    /\ out.ret = 0
    /\ CASE job.k \in {"real", "vf64"} -> SameFloat64(job.v, out.val)
         [] job.k = "vf32" -> SameFloat32(job.v, out.val)
         [] job.k = "oid" -> out.val = job.v
         [] OTHER -> out.val = job.v
    /\ ToInt(off) = Cap - job.slack
NoPartialSuccess == phase = "cut" => out.ret = -1
Terminal == phase' \in {"done", "cut"} \/ (phase' = "encoded" /\ out'.ret = -1)
Emit == Terminal => PrintT(<<"SCRIPT", ToJson(hist')>>)
===============================================================================
