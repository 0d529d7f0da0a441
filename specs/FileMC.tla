--------------------------------- MODULE FileMC ---------------------------------
(* A run of a tool: it reads its inputs, opens its output, hands it over in pieces through a buffer   *)
(* and closes it.  The device may take only so many octets, and closing may fail.  Success is         *)
(* reported from the results of the single steps.                                                     *)
EXTENDS FileIO, TLC, Json
CONSTANTS MaxInputs, MaxSize, MaxBuf, CheckClose
VARIABLES mode, inputs, output, size, room, buf, closes,      \* the environment
          pc, next, given, held, disk, short, status
env == <<mode, inputs, output, size, room, buf, closes>>
vars == <<env, pc, next, given, held, disk, short, status>>
Modes == {"merge", "emit", "dump", "stats"}
Outs(m) == IF m \in {"merge", "emit"} THEN OutputConds \ {"closed"} ELSE {"ok", "full", "limit", "closed"}
Init == /\ mode \in Modes
        /\ inputs \in (IF mode = "merge" THEN UNION {[1..k -> InputConds] : k \in 0..MaxInputs} ELSE [1..1 -> InputConds])
        /\ output \in Outs(mode)
        /\ size \in 1..MaxSize /\ buf \in 1..MaxBuf
        /\ room \in (CASE output = "limit" -> 0..(size - 1) [] output = "full" -> {0} [] OTHER -> {MaxSize})
        /\ closes \in {TRUE, FALSE}
        /\ pc = "read" /\ next = 1 /\ given = 0 /\ held = 0 /\ disk = 0 /\ short = FALSE /\ status = -1
Exit(k) == pc' = "done" /\ status' = k
Read == /\ pc = "read" /\ UNCHANGED <<env, given, held, disk, short>>
        /\ IF next > Len(inputs) THEN pc' = "open" /\ UNCHANGED <<next, status>>
           ELSE IF inputs[next] = "ok" THEN next' = next + 1 /\ UNCHANGED <<pc, status>>
           ELSE Exit(1) /\ UNCHANGED next
Open == /\ pc = "open" /\ UNCHANGED <<env, next, given, held, disk, short>>
        /\ IF output \in {"nodir", "isdir"} THEN Exit(1) ELSE pc' = "write" /\ UNCHANGED status
Min(a, b) == IF a < b THEN a ELSE b
Flush(n) == LET k == IF output = "closed" THEN 0 ELSE Min(n, room - disk) IN
            disk' = disk + k /\ short' = (short \/ k < n)
(* one octet into the buffer; a full buffer is written out *)
Write == /\ pc = "write" /\ UNCHANGED <<env, next, status>>
         /\ IF given = size \/ short THEN pc' = "close" /\ UNCHANGED <<given, held, disk, short>>
            ELSE /\ given' = given + 1 /\ UNCHANGED pc
                 /\ IF held + 1 = buf THEN held' = 0 /\ Flush(held + 1) ELSE held' = held + 1 /\ UNCHANGED <<disk, short>>
Close == /\ pc = "close" /\ held' = 0 /\ UNCHANGED <<env, next, given>>
         /\ LET k == IF output = "closed" \/ short THEN 0 ELSE Min(held, room - disk) IN
            /\ disk' = disk + k
            /\ short' = short
            /\ Exit(IF ~short /\ (CheckClose => k = held /\ closes) THEN 0 ELSE 1)
Next == Read \/ Open \/ Write \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Honest == pc = "done" /\ status = 0 => Readable(inputs) /\ disk = size /\ closes
Accepts == pc = "done" /\ Readable(inputs) /\ Writable(output) /\ closes => status = 0
Ends == <>(pc = "done")
(* schedules for the real tool *)
Emit == pc = "read" /\ next = 1 /\ closes /\ buf = 1 /\ size = 1 => PrintT(<<"SCRIPT", ToJson(<<mode, output, inputs>>)>>)
===============================================================================
