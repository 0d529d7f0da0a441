----------------------------- MODULE Asn1DumpTrace -----------------------------
(* Runs of the ASN.1 dump tool: the file's octets, the exit status and the rows shown.               *)
EXTENDS Asn1Dump, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TInit == l = 1
TSession == Is("Session")
TDump == /\ Is("Dump")
         /\ LET r == Parse(E.file) IN
            IF Regular(r) THEN E.exit = 0 /\ E.errors = 0 /\ E.other = 0 /\ RowsOK(E.file, r.rows, E.rows)
            ELSE /\ E.exit \in {0, 1}
                 /\ \A i \in 1..Len(E.rows) : E.rows[i].off >= 0 /\ E.rows[i].len >= 0 /\ E.rows[i].off + E.rows[i].len <= Len(E.file)
TMissing == Is("Missing") /\ E.exit = 1          \* no such file, a directory
TEnd == Is("End")
TNext == TSession \/ TDump \/ TMissing \/ TEnd
TSpec == TInit /\ [][TNext]_l
TraceAccepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===============================================================================
