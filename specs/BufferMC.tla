------------------------------- MODULE BufferMC ------------------------------
(* Exhaustive exploration of the byte buffer for small capacities.  A ghost map remembers what *)
(* was last written at each position, so that "bytes written are the bytes read back" is an   *)
(* invariant; every explored transition is printed as a script for the real code.             *)
EXTENDS Codec, TLC, Json
CONSTANTS MaxCap, Depth
VARIABLES ghost, last, hist
vars == <<buf, off, ghost, last, hist>>
V == {1, 2}
N(x) == <<"n", x>>
H(x) == <<"h", x>>
Huge == {<<255, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 0, 0, 0, 128>>}
Seeks == {OfInt(i) : i \in 0..(MaxCap + 2)} \cup Huge
MInit == \E c \in 0..MaxCap :
            /\ buf = Rep(0, c) /\ off = <<>> /\ ghost = Rep(0, c)
            /\ last = [op |-> "New", ret |-> <<>>, val |-> <<>>, pre |-> <<>>] /\ hist = <<<<"new", c>>>>
Record(op, cmd, ret, val) == last' = [op |-> op, ret |-> ret, val |-> val, pre |-> off] /\ hist' = Append(hist, cmd)
MSeek == \E o \in Seeks : Seek(o) /\ Record("Seek", <<"seek", N(o)>>, <<>>, <<>>) /\ UNCHANGED ghost
MReset == Reset /\ Record("Reset", <<"reset">>, <<>>, <<>>) /\ UNCHANGED ghost
Datas == UNION {[1..n -> V] : n \in {0, 1, 2, 4}}
MWrite == \E d \in Datas : \E ret \in {<<>>, OfInt(Len(d))} :
            /\ BufWrite(d, ret) /\ Record("Write", <<"wb", H(d)>>, ret, d)
            /\ ghost' = IF ret = <<>> THEN ghost
                        ELSE [i \in 1..Cap |-> IF i - ToInt(off) \in 1..Len(d) THEN d[i - ToInt(off)] ELSE ghost[i]]
MWriteInt == \E n \in {1, 2, 4} : \E ret \in {<<>>, OfInt(n)} : LET d == [i \in 1..n |-> i] IN
            /\ BufWrite(d, ret) /\ Record("Write", <<"w", n, N(d)>>, ret, d)
            /\ ghost' = IF ret = <<>> THEN ghost
                        ELSE [i \in 1..Cap |-> IF i - ToInt(off) \in 1..n THEN d[i - ToInt(off)] ELSE ghost[i]]
(* the unchecked calls, where they are allowed *)
MWriteU == \E d \in Datas : Fits(OfInt(Len(d))) /\ BufWrite(d, OfInt(Len(d))) /\ Record("Write", <<"uwb", H(d)>>, OfInt(Len(d)), d)
            /\ ghost' = [i \in 1..Cap |-> IF i - ToInt(off) \in 1..Len(d) THEN d[i - ToInt(off)] ELSE ghost[i]]
MReadU == \E n \in 0..3 : Fits(OfInt(n)) /\ BufRead(OfInt(n), OfInt(n), SubSeq(Rest, 1, n))
            /\ Record("Read", <<"urb", N(OfInt(n))>>, OfInt(n), SubSeq(Rest, 1, n)) /\ UNCHANGED ghost
MReadIntU == \E n \in {1, 2, 4} : Fits(OfInt(n)) /\ BufRead(OfInt(n), OfInt(n), SubSeq(Rest, 1, n))
            /\ Record("Read", <<"ur", n>>, OfInt(n), SubSeq(Rest, 1, n)) /\ UNCHANGED ghost
MRemaining == Remaining(OfInt(Len(Rest)), off) /\ Record("Remaining", <<"rem">>, OfInt(Len(Rest)), <<>>) /\ UNCHANGED ghost
MHuge == \E n \in Huge : BufWriteHuge(n, <<>>) /\ Record("Write", <<"wbhuge", N(n)>>, <<>>, <<>>) /\ UNCHANGED ghost
MRead == \E n \in {OfInt(i) : i \in 0..3} \cup Huge : \E ret \in {<<>>, n} :
            LET v == IF Fits(n) THEN SubSeq(Rest, 1, ToInt(n)) ELSE <<>> IN
            BufRead(n, ret, v) /\ Record("Read", <<"rb", N(n)>>, ret, v) /\ UNCHANGED ghost
MReadInt == \E n \in {1, 2, 4} : \E ret \in {<<>>, OfInt(n)} :
            LET v == IF Fits(OfInt(n)) THEN SubSeq(Rest, 1, n) ELSE <<>> IN
            BufRead(OfInt(n), ret, v) /\ Record("Read", <<"r", n>>, ret, v) /\ UNCHANGED ghost
MNext == MWriteU \/ MReadU \/ MReadIntU \/ MRemaining \/ MSeek \/ MReset \/ MWrite \/ MWriteInt \/ MHuge \/ MRead \/ MReadInt
MSpec == MInit /\ [][MNext]_vars
View == <<buf, off, ghost>>
Bound == Len(hist) <= Depth
ReadBack == buf = ghost                              \* nothing but successful writes changes the contents
AllOrNothingStep == last'.op \in {"Write", "Read"} =>
                  IF last'.ret = <<>> THEN UNCHANGED cvars
                  ELSE Inside /\ ToInt(off') = ToInt(off) + ToInt(last'.ret) /\ ToInt(off') <= Cap
AllOrNothing == [][AllOrNothingStep]_vars
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
===============================================================================
