------------------------------- MODULE OidTextMC -------------------------------
(* All short texts over {0, 1, 9, '.', x}: accepted texts are exactly dotted decimals, and      *)
(* formatting what was parsed gives the text back up to leading zeros.                          *)
EXTENDS Codec, TLC, Json
CONSTANT MaxLen
VARIABLES text, done
vars == <<buf, off, text, done>>
Chars == {48, 49, 57, 46, 120}
Edge == {Decimal(n) : n \in {Rep(255, 7), Rep(0, 7) \o <<1>>, Rep(255, 8), <<255, 255, 255, 255>>, Rep(255, 6)}}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxLen} \cup Edge \cup {<<50, 46>> \o t : t \in Edge}
         \cup {[i \in 1..n |-> IF i % 2 = 1 THEN 49 ELSE 46] : n \in 25..33}
MInit == text \in Texts /\ done = FALSE /\ buf = <<>> /\ off = <<>>
MNext == ~done /\ done' = TRUE /\ UNCHANGED <<buf, off, text>>
MSpec == MInit /\ [][MNext]_vars
R == TextToOid(text)
Dotted == /\ \A i \in 1..Len(text) : text[i] # 120
          /\ text = <<>> \/ (text[1] # 46 /\ text[Len(text)] # 46)
          /\ \A i \in 2..Len(text) : ~(text[i] = 46 /\ text[i - 1] = 46)
Dots == LET D == {i \in 1..Len(text) : text[i] = 46} IN IF text = <<>> THEN -1 ELSE Len(SelectSeq(text, LAMBDA x : x = 46))
Exact == Len(text) <= MaxLen => (R.ok <=> Dotted /\ Dots < CompMax)
Counted == R.ok => Len(R.val) = Dots + 1
Back == R.ok => LET r == TextToOid(TextOf(R.val)) IN r.ok /\ r.val = R.val /\ Len(TextOf(R.val)) <= Len(text)
Range == R.ok => \A i \in 1..Len(R.val) : Below2p56(R.val[i])
Emit == PrintT(<<"SCRIPT", ToJson(<<<<"fromtext", <<"h", text>>>>>>)>>)
===============================================================================
