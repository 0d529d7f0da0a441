------------------------------ MODULE HashMapTrace -----------------------------
EXTENDS HashMap, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<maps, status, l>>
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Seen == \A h \in Handles : \E o \in {E.maps[h]} : Observed(o, h)'
TInit == HInit /\ l = 1
TSession == Is("Session") /\ maps' = [h \in Handles |-> {}] /\ status' = [h \in Handles |-> 0]
TOp == \/ Is("new") /\ New(E.h)
       \/ Is("drop") /\ Drop(E.h)
       \/ Is("insert") /\ Insert(E.h, E.k, E.v, E.ret)
       \/ Is("sub") /\ Subscript(E.h, E.k, E.ret)
       \/ Is("set") /\ SetVal(E.h, E.k, E.v)
       \/ Is("erase") /\ Erase(E.h, E.k)
       \/ Is("fill") /\ E.stride > 0 /\ Fill(E.h, E.n, E.first, E.stride)
       \/ Is("empty") /\ Empty(E.h, E.n, E.first, E.stride)
       \/ Is("clear") /\ Clear(E.h)
       \/ Is("copy") /\ Copy(E.h, E.to)
       \/ Is("move") /\ Move(E.h, E.to)
       \/ Is("assign") /\ status[E.to] # 0 /\ Copy(E.h, E.to)
       \/ Is("massign") /\ status[E.to] # 0 /\ Move(E.h, E.to)
       \/ Is("eq") /\ Equal(E.h, E.to, E.ret, E.ne)
TEnd == Is("End") /\ UNCHANGED mvars
TNext == TSession \/ (TOp /\ Seen) \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
OneValue == \A h \in Handles : Cardinality(Keys(maps[h])) = Cardinality(maps[h])
TraceAccepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===============================================================================
