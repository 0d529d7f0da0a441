-------------------------------- MODULE ShaTrace -------------------------------
(* Hash contexts: each holds the kind and the octets fed so far; finishing yields their digest.    *)
EXTENDS Sha256, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ctx, l
tvars == <<ctx, l>>
Ctxs == 0..3
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Fresh == [c \in Ctxs |-> [kind |-> 0, msg |-> <<>>]]
TInit == ctx = Fresh /\ l = 1
TSession == Is("Session") /\ ctx' = Fresh
TStart == Is("Start") /\ ctx' = [ctx EXCEPT ![E.c] = [kind |-> E.kind, msg |-> <<>>]]
TUpdate == Is("Update") /\ ctx[E.c].kind # 0 /\ ctx' = [ctx EXCEPT ![E.c].msg = @ \o E.data]
(* result: the octets of the caller's buffer, which held 165 everywhere before *)
TFinish == /\ Is("Finish") /\ ctx[E.c].kind # 0
           /\ LET d == IF ctx[E.c].kind = 224 THEN Sha224(ctx[E.c].msg) ELSE Sha256(ctx[E.c].msg) IN
              E.result = d \o [i \in 1..(40 - Len(d)) |-> 165]
           /\ ctx' = [ctx EXCEPT ![E.c] = [kind |-> 0, msg |-> <<>>]]
(* messages too long to hash here: n copies of one block; the digest of the whole is given by the  *)
(* recorded reference                                                                             *)
TLong == Is("Long") /\ E.result = E.expect \o [i \in 1..(40 - Len(E.expect)) |-> 165] /\ UNCHANGED ctx
TEnd == Is("End") /\ UNCHANGED ctx
TNext == TSession \/ TStart \/ TUpdate \/ TFinish \/ TLong \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
TypeOK == \A c \in Ctxs : ctx[c].kind \in {0, 224, 256}
TraceAccepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===============================================================================
