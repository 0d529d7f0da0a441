-------------------------------- MODULE Codec --------------------------------
(* The byte buffer and every codec that works on it.  State: the buffer's octets and the      *)
(* cursor (a natural, so that it may lie far beyond the end).  One action per public call,    *)
(* with its arguments and results as parameters.                                              *)
EXTENDS Oid
F64 == INSTANCE Floats WITH ExpBits <- 11, ManBits <- 52
F32 == INSTANCE Floats WITH ExpBits <- 8, ManBits <- 23

VARIABLES buf, off
cvars == <<buf, off>>

Cap == Len(buf)
Inside == IsSmall(off) /\ ToInt(off) <= Cap
(* the octets from the cursor to the end; none when the cursor lies beyond it *)
Rest == IF Inside THEN SubSeq(buf, ToInt(off) + 1, Cap) ELSE <<>>
Fits(n) == Inside /\ IsSmall(n) /\ ToInt(n) <= Cap - ToInt(off)
Put(s) == [i \in 1..Cap |-> IF i > ToInt(off) /\ i <= ToInt(off) + Len(s) THEN s[i - ToInt(off)] ELSE buf[i]]
Advance(n) == off' = OfInt(ToInt(off) + n)

(* ------------------------------------------------------------ byte buffer *)
NewBuf(b) == buf' = b /\ off' = <<>>
Seek(o) == off' = o /\ UNCHANGED buf
Reset == off' = <<>> /\ UNCHANGED buf
(* all or nothing; integers arrive here as their little-endian octets *)
BufWrite(s, ret) ==
    IF Fits(OfInt(Len(s))) THEN ret = OfInt(Len(s)) /\ buf' = Put(s) /\ Advance(Len(s))
    ELSE ret = <<>> /\ UNCHANGED cvars
BufWriteHuge(n, ret) == ~Fits(n) /\ ret = <<>> /\ UNCHANGED cvars     \* a length no buffer has
BufRead(n, ret, val) ==
    /\ UNCHANGED buf
    /\ IF Fits(n) THEN /\ ret = n /\ val = SubSeq(Rest, 1, ToInt(n)) /\ Advance(ToInt(n))
       ELSE ret = <<>> /\ val = <<>> /\ UNCHANGED off
(* the part after the cursor, as a length and a distance from the start *)
Remaining(len, at) == UNCHANGED cvars /\ len = OfInt(Len(Rest)) /\ at = off
(* an octet as four block glyphs of two bits each, high bits first, cut to the space there is *)
GlyphOf == <<<<226, 150, 132>>, <<226, 150, 159>>, <<226, 150, 153>>, <<226, 150, 136>>>>
Glyphs(b) == GlyphOf[b \div 64 + 1] \o GlyphOf[((b \div 16) % 4) + 1] \o GlyphOf[((b \div 4) % 4) + 1] \o GlyphOf[(b % 4) + 1]
FormatByte(b, size, ret, text) ==
    /\ UNCHANGED cvars /\ Len(text) = size
    /\ IF size > 12 THEN ret = 12 ELSE ret <= 12 /\ ret >= size
    /\ LET n == IF size > 12 THEN 12 ELSE size - 1 IN
       \A i \in 1..size : text[i] = IF i <= n THEN Glyphs(b)[i] ELSE IF i = n + 1 THEN 0 ELSE 165
(* the octets before the cursor, sixteen to a row and the first of them rightmost, in hex and   *)
(* as glyphs *)
UpHex == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
DumpRow(b, i) ==
    LET At16(k) == i + 17 - k        \* k-th column, position in b
        H(k) == IF At16(k) > Len(b) THEN Rep(32, 5) ELSE <<32, 48, 120, UpHex[b[At16(k)] \div 16 + 1], UpHex[(b[At16(k)] % 16) + 1]>>
        G(k) == <<32>> \o (IF At16(k) > Len(b) THEN Cat(Rep(<<226, 150, 162>>, 4)) ELSE Glyphs(b[At16(k)]))
    IN Rep(32, 6) \o Cat([k \in 1..16 |-> H(k)]) \o <<10>>
       \o <<UpHex[((i \div 4096) % 16) + 1], UpHex[((i \div 256) % 16) + 1], UpHex[((i \div 16) % 16) + 1], UpHex[(i % 16) + 1], 58, 32>>
       \o Cat([k \in 1..16 |-> G(k)]) \o <<10>>
HexDumpText(b) == Cat([r \in 1..((Len(b) + 15) \div 16) |-> DumpRow(b, 16 * (r - 1))])
HexDump(text) == UNCHANGED cvars /\ Inside /\ text = HexDumpText(SubSeq(buf, 1, ToInt(off)))

(* ------------------------------------------------------------ encoders *)
(* after a failure the cursor may have moved within the buffer, and what was written lies at  *)
(* or after the old cursor                                                                    *)
FailedWrite ==
    /\ Len(buf') = Cap
    /\ IF Inside THEN /\ IsSmall(off') /\ ToInt(off') <= Cap /\ ToInt(off') >= ToInt(off)
                      /\ \A i \in 1..ToInt(off) : buf'[i] = buf[i]
       ELSE UNCHANGED cvars
FailedRead ==
    /\ UNCHANGED buf
    /\ IF Inside THEN IsSmall(off') /\ ToInt(off') <= Cap ELSE UNCHANGED off

Encoding(k, v) ==
    CASE k = "tag" -> EncTag(v) [] k = "len" -> EncLen(v) [] k = "ident" -> EncIdent(v)
      [] k = "u64" -> EncU(v) [] k = "s64" -> EncS(v) [] k = "leu64" -> EncLeU(v) [] k = "les64" -> EncLeS(v)
      [] k = "bool" -> EncBool(v) [] k = "null" -> <<>> [] k = "leb" -> EncLeb(v) [] k = "vlu" -> EncVlu(v)
      [] k = "oid" -> EncOid(v) [] k = "octets" -> v
      [] k = "real" -> F64!EncReal(F64!FloatOfOctets(v))
      [] k = "vf64" -> F64!EncVf(F64!FloatOfOctets(v))
      [] k = "vf32" -> F32!EncVf(F32!FloatOfOctets(v))
Tagged(tag, c) == EncIdent([class |-> 0, cons |-> 0, num |-> OfInt(tag)]) \o EncLen(OfInt(Len(c))) \o c

(* kinds that write their octets in one go leave a full buffer as it was *)
Atomic(k, der) == ~der /\ k \in {"u64", "s64", "leu64", "les64", "bool", "leb", "vlu", "octets"}
(* tag < 0: contents only.  plen is the predicted contents length, <<-1>> where there is none *)
Encode(k, tag, v, plen, ret) ==
    LET c == Encoding(k, v)
        e == IF c = Refused \/ tag < 0 THEN c ELSE Tagged(tag, c)
    IN /\ (c # Refused /\ plen # <<-1>>) => plen = OfInt(Len(c))
       /\ IF e # Refused /\ Fits(OfInt(Len(e)))
          THEN ret = 0 /\ buf' = Put(e) /\ Advance(Len(e))
          ELSE IF e = <<>> THEN ret \in {0, -1} /\ UNCHANGED cvars      \* nothing to write, cursor beyond the end
          ELSE /\ ret = -1
               /\ IF Atomic(k, tag >= 0) THEN UNCHANGED cvars ELSE FailedWrite

(* ------------------------------------------------------------ decoders *)
Decoding(k, s, len) ==
    CASE k = "tag" -> DecTag(s) [] k = "len" -> DecLen(s) [] k = "ident" -> DecIdent(s)
      [] k = "u64" -> DecU(s, len) [] k = "s64" -> DecS(s, len)
      [] k = "leu64" -> DecLeU(s, len) [] k = "les64" -> DecLeS(s, len)
      [] k = "bool" -> DecBool(s, len) [] k = "null" -> DecNull(s, len)
      [] k = "leb" -> DecLeb(s) [] k = "vlu" -> DecVlu(s)
      [] k = "oid" -> DecOid(s, len)
      [] k = "real" -> F64!DecReal(s, len)
      [] k = "vf64" -> F64!DecVf(s)
      [] k = "vf32" -> F32!DecVf(s)
(* floats are compared as values of their format: every NaN is the same *)
SameFloat64(w, f) == LET g == F64!FloatOfOctets(w) IN g = f \/ (F64!IsNaN(g) /\ F64!IsNaN(f))
SameFloat32(w, f) == LET g == F32!FloatOfOctets(w) IN g = f \/ (F32!IsNaN(g) /\ F32!IsNaN(f))
Same(k, val, spec) ==
    CASE k \in {"real", "vf64"} -> SameFloat64(val, spec)
      [] k = "vf32" -> SameFloat32(val, spec)
      [] OTHER -> val = spec
ZeroVal(k) == CASE k \in {"u64", "leu64", "leb", "vlu", "tag", "len"} -> <<>>
                [] k \in {"s64", "les64", "real", "vf64"} -> Zero8
                [] k = "vf32" -> Rep(0, 4) [] k = "bool" -> <<0>> [] k = "oid" -> <<>> [] OTHER -> <<>>
HasZero(k) == k \notin {"ident", "null"}
DontCare(k, r) == k \in {"vf64", "vf32"} /\ r.ok /\ r.val.sign = 2
ReadOutcome(k, r, used, ret, val) ==
    /\ UNCHANGED buf
    /\ IF DontCare(k, r) THEN FailedRead
       ELSE IF r.ok
       THEN ret = 0 /\ Same(k, val, r.val) /\ (IF used = 0 THEN UNCHANGED off ELSE Advance(used))
       ELSE ret = -1 /\ FailedRead /\ (HasZero(k) => val = ZeroVal(k))
Decode(k, len, ret, val) ==
    LET r == Decoding(k, Rest, len) IN ReadOutcome(k, r, r.used, ret, val)

(* header of a DER element whose tag number is looked at: [ok, len, used] *)
Header(s, tag) ==
    LET h == DecIdent(s) IN
    IF ~h.ok \/ h.val.num # OfInt(tag) THEN [ok |-> FALSE, len |-> <<>>, used |-> 0]
    ELSE LET n == DecLen(SubSeq(s, h.used + 1, Len(s))) IN
         [ok |-> n.ok, len |-> n.val, used |-> h.used + n.used]
(* a foreign class or constructed form with the right number is outside the guarantee *)
Foreign(s, tag) == LET h == DecIdent(s) IN h.ok /\ h.val.num = OfInt(tag) /\ (h.val.class # 0 \/ h.val.cons # 0)
DerDecode(k, tag, ret, val) ==
    LET h == Header(Rest, tag)
        c == SubSeq(Rest, h.used + 1, Len(Rest))
    IN IF Foreign(Rest, tag) THEN FailedRead
       ELSE IF ~h.ok THEN UNCHANGED buf /\ ret = -1 /\ FailedRead /\ (HasZero(k) => val = ZeroVal(k))
       ELSE LET r == Decoding(k, c, h.len) IN ReadOutcome(k, r, h.used + r.used, ret, val)

(* ------------------------------------------------------------ octet strings: two lengths *)
MinI(a, b) == IF a < b THEN a ELSE b
(* user: the user's buffer before the call, <<>> with ask=TRUE when only the length is asked   *)
OctetsRead(len, ucount, ask, ret, count, user, s) ==
    /\ UNCHANGED buf
    /\ IF IsSmall(len) /\ ToInt(len) <= Len(s)
       THEN LET n == MinI(ToInt(len), ucount) IN
            /\ ret = 0 /\ count = len
            /\ user = (IF ask THEN <<>> ELSE SubSeq(s, 1, n) \o Rep(165, ucount - n))
       ELSE ret = -1 /\ user = (IF ask THEN <<>> ELSE Rep(165, ucount))
BerOctetsRead(len, ucount, ask, ret, count, user) ==
    /\ OctetsRead(len, ucount, ask, ret, count, user, Rest)
    /\ IF ret = 0 /\ len # <<>> THEN Advance(ToInt(len)) ELSE UNCHANGED off
DerOctetsRead(tag, ucount, ask, ret, count, user) ==
    LET h == Header(Rest, tag) IN
    IF Foreign(Rest, tag) THEN FailedRead
    ELSE IF ~h.ok THEN ret = -1 /\ FailedRead /\ user = (IF ask THEN <<>> ELSE Rep(165, ucount))
    ELSE /\ OctetsRead(h.len, ucount, ask, ret, count, user, SubSeq(Rest, h.used + 1, Len(Rest)))
         /\ IF ret = 0 THEN Advance(h.used + ToInt(h.len)) ELSE FailedRead
BerOctetsWrite(len, src, ret) ==
    IF Fits(len) THEN ret = 0 /\ buf' = Put(SubSeq(src, 1, MinI(ToInt(len), Len(src)))) /\ Advance(ToInt(len))
    ELSE ret \in (IF len = <<>> THEN {0, -1} ELSE {-1}) /\ UNCHANGED cvars

(* ------------------------------------------------------------ object identifier text *)
ToText(o, size, len, text, guard) ==               \* size: the caller's buffer; text: what it holds, up to NUL
    /\ UNCHANGED cvars /\ guard
    /\ LET t == TextOf(o) IN
       /\ len = Len(t)
       /\ IF size = 0 THEN TRUE ELSE text = SubSeq(t, 1, MinI(Len(t), size - 1))
FromText(s, ret, o) ==
    /\ UNCHANGED cvars
    /\ LET r == TextToOid(s) IN IF r.ok THEN ret = 0 /\ o = r.val ELSE ret = -1 /\ o = r.val
===============================================================================
