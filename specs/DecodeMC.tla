------------------------------- MODULE DecodeMC --------------------------------
(* All short octet strings over an alphabet, offered to every decoder: no accepted string is   *)
(* shorter than the canonical encoding of what it denotes, self-delimiting codes are prefix     *)
(* free, and nothing is consumed beyond the stated length.  Every case is printed as a script.  *)
EXTENDS Codec, TLC, Json
CONSTANTS Kinds, First, Others, MaxLen, Lens, Apis2
VARIABLES job, done
vars == <<buf, off, job, done>>
N(x) == <<"n", x>>
H(x) == <<"h", x>>
SelfDelimiting == {"tag", "len", "ident", "leb", "vlu", "vf64", "vf32"}
Strs == {<<>>} \cup UNION {[1..n -> Others] : n \in 1..(MaxLen - 1)}
Input == {<<>>} \cup {<<f>> \o s : f \in First, s \in Strs}
MInit == /\ buf \in Input /\ off = <<>> /\ done = FALSE
         /\ job \in {[k |-> k, api |-> a, len |-> l] : k \in Kinds, a \in Apis2, l \in {OfInt(i) : i \in Lens}}
         /\ (job.k \in SelfDelimiting \cup {"null"} => job.len = <<>> \/ job.k = "null")
R == Decoding(job.k, buf, job.len)
MNext == ~done /\ done' = TRUE /\ UNCHANGED <<buf, job>> /\ (IF R.ok THEN off' = OfInt(R.used) ELSE UNCHANGED off)
MSpec == MInit /\ [][MNext]_vars
Plain == job.k \notin {"vf64", "vf32", "real"}
Words(v) == CASE job.k \in {"tag", "len", "u64", "leu64", "leb", "vlu", "s64", "les64"} -> v [] OTHER -> v
Canonical == (R.ok /\ Plain /\ Encoding(job.k, R.val) # Refused) =>
                 /\ Len(Encoding(job.k, R.val)) <= R.used
                 /\ Decoding(job.k, Encoding(job.k, R.val), OfInt(Len(Encoding(job.k, R.val)))).val = R.val
PrefixFree == (R.ok /\ job.k \in SelfDelimiting) =>
                 \A n \in 0..(R.used - 1) : ~Decoding(job.k, SubSeq(buf, 1, n), job.len).ok
Within == R.ok => /\ R.used <= Len(buf)
                  /\ (job.k \notin SelfDelimiting => R.used = ToInt(job.len))
Emit == PrintT(<<"SCRIPT", ToJson(<<<<"buf", H(buf)>>, <<"dec", job.k, job.api, -1, N(job.len)>>>>)>>)
===============================================================================
