------------------------------ MODULE OidRegTrace ------------------------------
(* Lookups in any order: each answer depends on the octets asked for and nothing else.               *)
EXTENDS OidReg
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1
TSession == Is("Session")
TDesc == Is("Desc") /\ E.result \in Answers(E.oid)
TEnd == Is("End")
TNext == TSession \/ TDesc \/ TEnd
TSpec == TInit /\ [][TNext]_l
TraceAccepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===============================================================================
