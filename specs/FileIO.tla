--------------------------------- MODULE FileIO ---------------------------------
(* Files as a tool meets them.  Conditions of an input and of an output. *)
EXTENDS Integers, Sequences
InputConds == {"ok", "missing", "dir", "cut", "foreign", "empty", "denied", "under"}
OutputConds == {"ok", "over", "full", "limit", "nodir", "isdir", "closed"}
Readable(inputs) == \A i \in 1..Len(inputs) : inputs[i] = "ok"
Writable(output) == output \in {"ok", "over"}
===============================================================================
