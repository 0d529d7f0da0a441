------------------------------- MODULE OctetsMC --------------------------------
(* OCTET STRING reads and writes at every cursor, object length, user buffer size and buffer    *)
(* size up to small bounds (lengths and cursors also near the maximum of the size type).        *)
EXTENDS Codec, TLC, Json
CONSTANT MaxCap
VARIABLES job, res, hist
vars == <<buf, off, job, res, hist>>
Huge == {<<255, 255, 255, 255, 255, 255, 255, 255>>, <<253, 255, 255, 255, 255, 255, 255, 255>>, <<0, 0, 0, 0, 1>>}
Sizes == {OfInt(i) : i \in 0..(MaxCap + 1)}
MInit == /\ \E c \in 0..MaxCap : buf = [i \in 1..c |-> 16 + i]
         /\ off \in Sizes \cup Huge
         /\ job \in [op : {"read", "ask", "write"}, len : Sizes \cup Huge, u : 0..(MaxCap + 1)]
         /\ (job.op # "read" => job.u = 0) /\ (job.op = "write" => IsSmall(job.len))
         /\ res = [ret |-> 1, user |-> <<>>, pre |-> off]
         /\ hist = <<<<"buf", <<"h", buf>>>>, <<"seek", <<"n", off>>>>>>
Users == LET n == IF IsSmall(job.len) THEN MinI(MinI(ToInt(job.len), job.u), Len(Rest)) ELSE 0 IN
         IF job.op = "read" THEN {SubSeq(Rest, 1, n) \o Rep(165, job.u - Len(SubSeq(Rest, 1, n))), Rep(165, job.u)} ELSE {<<>>}
Src == Rep(9, ToInt(job.len))
MNext == /\ res.ret = 1 /\ UNCHANGED job
         /\ \E ret \in {0, -1} : \E u \in Users :
               /\ IF job.op = "write" THEN BerOctetsWrite(job.len, Src, ret)
                  ELSE BerOctetsRead(job.len, job.u, job.op = "ask", ret, job.len, u)
               /\ res' = [ret |-> ret, user |-> u, pre |-> off]
         /\ hist' = Append(hist, IF job.op = "write" THEN <<"octw", <<"n", job.len>>, <<"h", Src>>>>
                                 ELSE <<"octr", "ber", -1, <<"n", job.len>>, job.u, IF job.op = "ask" THEN 1 ELSE 0>>)
MSpec == MInit /\ [][MNext]_vars
Total == res.ret = 1 => ENABLED MNext                         \* the specification always has an answer
Refuses == res.ret = -1 => off = res.pre
Bounded == (res.ret = 0 /\ job.len # <<>>) => Inside
NoOverrun == res.ret = 0 => Len(res.user) = (IF job.op = "read" THEN job.u ELSE 0)
Emit == PrintT(<<"SCRIPT", ToJson(hist')>>)
===============================================================================
