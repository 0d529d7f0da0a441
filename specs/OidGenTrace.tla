------------------------------ MODULE OidGenTrace ------------------------------
(* Runs of the generator: the registry, the options, the rows printed; odd: lines that are no rows.   *)
EXTENDS OidGen, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1
TSession == Is("Session")
TGen == /\ Is("Generate") /\ E.exit = 0 /\ E.odd = 0
        /\ IF E.strings = 1 THEN TextRowsOK(E.reg, E.texts) ELSE E.texts = <<>>
        /\ IF E.bytes = 1 THEN OctetRowsOK(E.reg, E.octets) ELSE E.octets = <<>>
TEnd == Is("End")
TNext == TSession \/ TGen \/ TEnd
TSpec == TInit /\ [][TNext]_l
TraceAccepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===============================================================================
