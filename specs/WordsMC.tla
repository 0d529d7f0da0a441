-------------------------------- MODULE WordsMC --------------------------------
(* The ways without special instructions, on bit sequences of W bits, against the definitions:         *)
(* pairwise sums for the population count, smearing for leading zeros, masks for trailing zeros,        *)
(* one octet at a time for the byte order.                                                             *)
EXTENDS Words, FiniteSets, TLC, Json
CONSTANTS W            \* 8 or 16
VARIABLES v, pc, acc, k
vars == <<v, pc, acc, k>>
All == {NatOfBits(IntBits(x, W)) : x \in 0..(2 ^ W - 1)}
Or(a, b) == [i \in 1..W |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE 0]
Shr(a, n) == [i \in 1..W |-> IF i + n <= W THEN a[i + n] ELSE 0]
Init == v \in All /\ pc = "sum" /\ acc = [i \in 1..W |-> WordBits(v, W)[i]] /\ k = 1
(* sums of neighbouring groups: acc holds W/k counters *)
Sum == /\ pc = "sum" /\ Len(acc) > 1 /\ acc' = [i \in 1..(Len(acc) \div 2) |-> acc[2 * i - 1] + acc[2 * i]] /\ k' = 2 * k /\ UNCHANGED <<v, pc>>
SumDone == /\ pc = "sum" /\ Len(acc) = 1 /\ pc' = "smear" /\ acc' = WordBits(v, W) /\ k' = 1 /\ UNCHANGED v
Smear == /\ pc = "smear" /\ k < W /\ acc' = Or(acc, Shr(acc, k)) /\ k' = 2 * k /\ UNCHANGED <<v, pc>>
SmearDone == /\ pc = "smear" /\ k >= W /\ pc' = "mask" /\ acc' = <<W - (IF v = <<>> THEN 0 ELSE 1)>> /\ k' = W \div 2 /\ UNCHANGED v
(* the lowest one alone: is it in the lower half of its group of 2k bits *)
LowestOne == Ctz(v, W)
Mask == /\ pc = "mask" /\ k >= 1 /\ acc' = <<acc[1] - (IF v # <<>> /\ (LowestOne \div k) % 2 = 0 THEN k ELSE 0)>> /\ k' = k \div 2 /\ UNCHANGED <<v, pc>>
MaskDone == /\ pc = "mask" /\ k = 0 /\ pc' = "order" /\ acc' = <<>> /\ UNCHANGED <<v, k>>
(* most significant octet first *)
Order == /\ pc = "order" /\ Len(acc) < W \div 8 /\ acc' = Append(acc, At(v, W \div 8 - Len(acc))) /\ UNCHANGED <<v, pc, k>>
OrderDone == /\ pc = "order" /\ Len(acc) = W \div 8 /\ pc' = "done" /\ UNCHANGED <<v, acc, k>>
Next == Sum \/ SumDone \/ Smear \/ SmearDone \/ Mask \/ MaskDone \/ Order \/ OrderDone
Spec == Init /\ [][Next]_vars
SumRight == pc = "sum" /\ Len(acc) = 1 => acc[1] = Popcnt(v, W)
SmearRight == pc = "smear" /\ k >= W => W - CountOnes(acc, 1) = Clz(v, W)
MaskRight == pc = "mask" /\ k = 0 => acc[1] = Ctz(v, W)
OrderRight == pc = "done" => acc = Big(v, W) /\ Swap(Swap(v, W), W) = v
Zero == /\ Popcnt(<<>>, W) = 0 /\ Clz(<<>>, W) = W /\ Ctz(<<>>, W) = W
Emit == pc' = "done" => PrintT(<<"SCRIPT", ToJson(<<v>>)>>)
===============================================================================
