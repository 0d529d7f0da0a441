---------------------------------- MODULE ShaMC --------------------------------
(* Feeding: contexts are fed in pieces whose sizes sit around the block boundaries, interleaved;    *)
(* the model's block buffer (what is complete is compressed at once, the rest is kept) refines        *)
(* "octets fed so far".  Prints the feeding schedules for the real code.                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes, MaxLen, NCtx
VARIABLES fed, whole, rest, hist, fin
vars == <<fed, whole, rest, hist, fin>>
C == 0..(NCtx - 1)
MInit == fed = [c \in C |-> 0] /\ whole = [c \in C |-> 0] /\ rest = [c \in C |-> 0] /\ fin = {} /\ hist = [c \in C |-> <<>>]
Feed(c, n) == /\ c \notin fin /\ fed[c] + n <= MaxLen /\ Len(hist[c]) < 4
              /\ fed' = [fed EXCEPT ![c] = @ + n]
              /\ whole' = [whole EXCEPT ![c] = @ + (rest[c] + n) \div 64]
              /\ rest' = [rest EXCEPT ![c] = (@ + n) % 64]
              /\ hist' = [hist EXCEPT ![c] = Append(@, n)] /\ UNCHANGED fin
Finish(c) == c \notin fin /\ fin' = fin \cup {c} /\ UNCHANGED <<fed, whole, rest, hist>>
MNext == \E c \in C : Finish(c) \/ \E n \in Sizes : Feed(c, n)
MSpec == MInit /\ [][MNext]_vars
Buffered == \A c \in C : fed[c] = 64 * whole[c] + rest[c] /\ rest[c] \in 0..63
Emit == (fin' # fin /\ fin' = C) => PrintT(<<"SCRIPT", ToJson(hist[0])>>)
===============================================================================
