-------------------------------- MODULE OidReg --------------------------------
(* Descriptions of object identifiers: a finite registry of octet strings.  A name may be listed     *)
(* for several identifiers and an identifier may carry several names; a lookup answers with one of   *)
(* the listed names, or with the empty text when there is none.                                      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Registry == ndJsonDeserialize(IOEnv.REGISTRY)          \* [oid |-> octets, name |-> text]
Oids == {Registry[i].oid : i \in 1..Len(Registry)}
Names == [o \in Oids |-> {r.name : r \in {Registry[i] : i \in {j \in 1..Len(Registry) : Registry[j].oid = o}}}]
Answers(q) == IF q \in Oids THEN Names[q] ELSE {""}
===============================================================================
