------------------------------- MODULE WordsTrace -------------------------------
(* Recorded calls of the bit counting and byte order primitives.                                     *)
EXTENDS Words, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1
TSession == Is("Session")
TEnd == Is("End")
TBits == Is("Bits") /\ E.clz = Clz(E.v, E.w) /\ E.ctz = Ctz(E.v, E.w) /\ E.popcnt = Popcnt(E.v, E.w)
TOrder == Is("Order") /\ E.be = Big(E.v, E.w) /\ E.le = Little(E.v, E.w) /\ E.beback = E.v /\ E.leback = E.v /\ E.swap = Swap(E.v, E.w)
TNext == TSession \/ TEnd \/ TBits \/ TOrder
TSpec == TInit /\ [][TNext]_l
TraceAccepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===============================================================================
