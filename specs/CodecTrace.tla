------------------------------ MODULE CodecTrace -----------------------------
(* A recorded execution of the real codecs must be a behaviour of Codec.                      *)
EXTENDS Codec, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<buf, off, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Logged == buf' = E.buf /\ off' = E.off

TInit == buf = <<>> /\ off = <<>> /\ l = 1
TSession == Is("Session") /\ buf' = <<>> /\ off' = <<>>
TNew == Is("New") /\ E.buf = Rep(0, E.cap) /\ NewBuf(E.buf) /\ Logged
TBuf == Is("Buf") /\ NewBuf(E.content) /\ Logged
TSeek == Is("Seek") /\ Seek(E.to) /\ Logged
TReset == Is("Reset") /\ Reset /\ Logged
TWrite == Is("Write") /\ Logged /\ BufWrite(E.data, E.ret)
TWriteHuge == Is("WriteHuge") /\ Logged /\ BufWriteHuge(E.len, E.ret)
TRead == Is("Read") /\ Logged /\ BufRead(E.len, E.ret, E.val)
TRemaining == Is("Remaining") /\ Logged /\ Remaining(E.len, E.at)
TGlyph == Is("Glyph") /\ FormatByte(E.byte, E.size, E.ret, E.text)
THexDump == Is("HexDump") /\ Logged /\ HexDump(E.text)
TEnc == Is("Enc") /\ Logged /\ Encode(E.k, E.tag, E.val, E.plen, E.ret)
TDec == Is("Dec") /\ Logged /\ Decode(E.k, E.len, E.ret, E.val)
TDerDec == Is("DerDec") /\ Logged /\ DerDecode(E.k, E.tag, E.ret, E.val)
TOctR == Is("OctR") /\ Logged /\ BerOctetsRead(E.len, E.ucount, E.ask = 1, E.ret, E.count, E.user)
TDerOctR == Is("DerOctR") /\ Logged /\ DerOctetsRead(E.tag, E.ucount, E.ask = 1, E.ret, E.count, E.user)
TOctW == Is("OctW") /\ Logged /\ BerOctetsWrite(E.len, E.src, E.ret)
TToText == Is("ToText") /\ Logged /\ ToText(E.oid, E.size, E.len, E.text, E.guard = 1)
TFromText == Is("FromText") /\ Logged /\ FromText(E.text, E.ret, E.oid)
TEnd == Is("End") /\ UNCHANGED <<buf, off>>
TNext == \/ TSession \/ TNew \/ TBuf \/ TSeek \/ TReset \/ TWrite \/ TWriteHuge \/ TRead \/ TRemaining \/ TGlyph \/ THexDump \/ TEnc \/ TDec
         \/ TDerDec \/ TOctR \/ TDerOctR \/ TOctW \/ TToText \/ TFromText \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
CursorType == IsOctets(off) /\ IsOctets(buf)
TraceAccepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===============================================================================
