--------------------------------- MODULE DerMC ---------------------------------
(* Streams of DER elements: a writer appends elements until one does not fit, a reader reads    *)
(* them back in order, may skip an element by its header, or offers one wrong tag (and stops).   *)
EXTENDS Codec, TLC, Json
CONSTANTS MaxItems
VARIABLES todo, written, nread, phase, hist
vars == <<buf, off, todo, written, nread, phase, hist>>
N(x) == <<"n", x>>
H(x) == <<"h", x>>
Items == {[k |-> "bool", t |-> 1, v |-> <<1>>], [k |-> "u64", t |-> 2, v |-> <<0, 1>>],
          [k |-> "s64", t |-> 2, v |-> Rep(255, 8)], [k |-> "oid", t |-> 6, v |-> <<<<2>>, <<231, 3>>, <<7>>>>],
          [k |-> "octets", t |-> 4, v |-> <<1, 2, 3>>], [k |-> "octets", t |-> 40, v |-> <<>>],
          [k |-> "null", t |-> 5, v |-> <<>>], [k |-> "real", t |-> 9, v |-> F64!OctetsOfFloat([sign |-> 1, exp |-> 1020, mant |-> Rep(0, 51) \o <<1>>])]}
Bytes(it) == Tagged(it.t, Encoding(it.k, it.v))
Size(it) == Len(Bytes(it))
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE Size(s[n]) + Sum(s, n - 1)
Api(it) == IF it.k \in {"u64", "s64", "real"} THEN "derval" ELSE "der"
Operands(it) == CASE it.k = "oid" -> <<Len(it.v)>> \o [i \in 1..Len(it.v) |-> N(it.v[i])]
                  [] it.k = "octets" -> <<H(it.v)>> [] it.k = "null" -> <<>> [] OTHER -> <<N(Norm(it.v))>>
ReadCmd(it, t) == IF it.k = "octets" THEN <<"octr", "der", t, N(<<>>), Len(it.v), 0>> ELSE <<"dec", it.k, Api(it), t, N(<<>>)>>
MInit == /\ \E n \in 1..MaxItems : todo \in [1..n -> Items]
         /\ \E short \in {0, 1, 2} : LET c == Sum(todo, Len(todo)) - short IN
              /\ c >= 0 /\ buf = Rep(0, c) /\ hist = <<<<"new", c>>>>
         /\ off = <<>> /\ written = 0 /\ nread = 0 /\ phase = "write"
MWrite == /\ phase = "write" /\ written < Len(todo)
          /\ LET it == todo[written + 1] IN
             /\ hist' = Append(hist, <<"enc", it.k, Api(it), it.t>> \o Operands(it))
             /\ IF Fits(OfInt(Size(it))) THEN /\ buf' = Put(Bytes(it)) /\ Advance(Size(it)) /\ written' = written + 1 /\ phase' = phase
                ELSE UNCHANGED <<buf, off, written>> /\ phase' = "full"
          /\ UNCHANGED <<todo, nread>>
MTurn == /\ (phase = "write" /\ written = Len(todo)) \/ phase = "full"
         /\ phase' = "read" /\ Reset /\ hist' = Append(hist, <<"reset">>) /\ UNCHANGED <<todo, written, nread>>
MRead == /\ phase = "read" /\ nread < written
         /\ LET it == todo[nread + 1] IN hist' = Append(hist, ReadCmd(it, it.t)) /\ Advance(Size(it))
         /\ nread' = nread + 1 /\ UNCHANGED <<buf, todo, written, phase>>
MSkip == /\ phase = "read" /\ nread < written
         /\ LET it == todo[nread + 1] IN
            hist' = hist \o <<<<"dec", "ident", "ptr", -1, N(<<>>)>>, <<"dec", "len", "ptr", -1, N(<<>>)>>,
                              <<"seek", N(OfInt(ToInt(off) + Size(it)))>>>> /\ Advance(Size(it))
         /\ nread' = nread + 1 /\ UNCHANGED <<buf, todo, written, phase>>
MWrong == /\ phase = "read" /\ nread < written /\ phase' = "end"
          /\ \E t \in {3, 31} : hist' = Append(hist, ReadCmd(todo[nread + 1], t))
          /\ UNCHANGED <<buf, off, todo, written, nread>>
MNext == MWrite \/ MTurn \/ MRead \/ MSkip \/ MWrong
MSpec == MInit /\ [][MNext]_vars
View == <<todo, buf, off, written, nread, phase>>
(* what lies at the reader's cursor is the next element, and decodes to its value *)
InOrder == (phase = "read" /\ nread < written) =>
     LET it == todo[nread + 1]  h == Header(Rest, it.t)
         c == SubSeq(Rest, h.used + 1, Len(Rest)) IN
     /\ h.ok /\ ToInt(off) = Sum(todo, nread)
     /\ IF it.k = "octets" THEN SubSeq(c, 1, ToInt(h.len)) = it.v
        ELSE LET r == Decoding(it.k, c, h.len) IN
             r.ok /\ h.used + r.used = Size(it) /\ (IF it.k = "real" THEN SameFloat64(it.v, r.val) ELSE r.val = it.v)
WrongTag == (phase = "read" /\ nread < written) => \A t \in {3, 31} : ~Header(Rest, t).ok
Ends == phase = "read" /\ nread = written => ToInt(off) = Sum(todo, written)
Terminal == phase' = "end" \/ (phase' = "read" /\ nread' = written')
Emit == Terminal => PrintT(<<"SCRIPT", ToJson(hist')>>)
===============================================================================
