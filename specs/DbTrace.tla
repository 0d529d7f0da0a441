-------------------------------- MODULE DbTrace --------------------------------
(* Recorded histories of the database library.  dbs[d] is what database d must hold.                 *)
EXTENDS Image, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES dbs, names, idx, images, l      \* idx: <<structure, hash>> pairs seen
tvars == <<dbs, names, idx, images, l>>
Slots == 0..7
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
None == [nodes |-> <<>>, root |-> 0]
NoNames == {}
D == dbs[E.d]
Keep == UNCHANGED <<dbs, names, idx, images>>
Only(d, db) == dbs' = [dbs EXCEPT ![d] = db] /\ UNCHANGED <<names, idx, images>>
TInit == /\ dbs = [d \in Slots |-> None] /\ names = [d \in Slots |-> NoNames]
         /\ idx = {} /\ images = [d \in Slots |-> <<>>] /\ l = 1
TSession == /\ Is("Session") /\ dbs' = [d \in Slots |-> None] /\ names' = [d \in Slots |-> NoNames]
            /\ idx' = {} /\ images' = [d \in Slots |-> <<>>]
TEnd == Is("End") /\ Keep

(* -------- building -------- *)
TNew == Is("New") /\ dbs' = [dbs EXCEPT ![E.d] = EmptyDb] /\ names' = [names EXCEPT ![E.d] = NoNames]
        /\ UNCHANGED <<idx, images>>
TDefaults == Is("Defaults") /\ Count(D) = 1 /\ Only(E.d, DefaultDb)
TDecl == Is("Decl") /\ E.id = Count(D) /\ E.node = BlankOf(E.tag) /\ Only(E.d, WithNode(D, BlankOf(E.tag)))
(* a name: empty ones share the null name, others get an identifier no other live name has *)
TName == /\ Is("Name") /\ E.back = E.text
         /\ (E.text = "" <=> E.id = 0)
         /\ (E.text # "" => \A p \in names[E.d] : p[1] # E.id)
         /\ names' = [names EXCEPT ![E.d] = @ \cup {<<E.id, E.text>>}] /\ UNCHANGED <<dbs, idx, images>>
TNameText == Is("NameText") /\ (\A i \in 1..Len(E.all) : <<E.all[i][1], E.all[i][2]>> \in names[E.d]) /\ Keep
TSetOp == LET n == N(D, E.id) IN Is("Set") /\ E.id \in Ids(D)
        /\ Only(E.d, SetNode(D, E.id, CASE E.f = "props" -> [n EXCEPT ![2] = E.v] [] E.f = "name" -> [n EXCEPT ![3] = E.t]
                  [] E.f = "next" -> [n EXCEPT ![4] = E.v] [] E.f = "link" -> [n EXCEPT ![5] = E.v]
                  [] E.f = "attr" -> [n EXCEPT ![6] = E.v] [] E.f = "qty" -> [n EXCEPT ![7] = E.q]))
TRoot == Is("Root") /\ Only(E.d, [D EXCEPT !.root = E.id])
(* a whole database with builtins: declarations in order *)
TBuild == /\ Is("Build")
          /\ E.first = FirstUser
          /\ Only(E.d, [nodes |-> DefaultDb.nodes \o E.nodes, root |-> E.root])
(* a database of many declarations: declaration i is the same function of i before and after a transfer; *)
(* what is added to the database read back is blank and numbered on                                      *)
RECURSIVE PadName(_, _)
PadName(s, n) == IF Len(s) >= n THEN s ELSE PadName(s \o "_", n)
BulkName(i, len) == IF len = 0 THEN "" ELSE PadName("n" \o ToString(i), len)
BulkNode(i, total, len) == IF i < FirstUser THEN DefaultDb.nodes[i + 1]
    ELSE <<1 + (i % 18), i % 1024, BulkName(i, len), (i + 1) % total, total - 1 - i, i - 1, OfInt(i)>>
BulkIs(s, total, len) == s # <<>> /\ \A k \in 1..Len(s) : s[k][2] = BulkNode(s[k][1], total, len)
TBulk == /\ Is("Bulk") /\ E.consecutive /\ BulkIs(E.built, E.total, E.len)
         /\ E.wrc = 0 /\ E.rrc = 0 /\ E.again /\ E.count = E.total /\ E.root = FirstUser
         /\ BulkIs(E.read, E.total, E.len) /\ E.next = E.total /\ E.blank = BlankOf(7) /\ Keep
TState == Is("State") /\ E.root = D.root /\ E.nodes = D.nodes /\ Keep

(* -------- queries -------- *)
TIntrinsicOp == Is("Intrinsic") /\ E.id = Intrinsic(D, E.props, E.width) /\ Keep
TTagName == Is("TagName") /\ (E.tag < Len(KindNames) => E.result = KindNames[E.tag + 1])
            /\ (E.tag >= Len(KindNames) => \A i \in 1..Len(KindNames) : E.result # KindNames[i]) /\ Keep
TQuery == /\ Is("Query")
          /\ IF Allowed(D, E.fn, E.id)
             THEN LET m == Members(D, E.fn, E.id) IN
                  /\ E.rc = 0 /\ (E.counted => E.count = Len(m))
                  /\ (E.stored => E.list = Take(m, E.limit))
             ELSE E.rc # 0
          /\ Keep
If(b, x) == IF b THEN x ELSE 0
TKind == /\ Is("Kind")
         /\ LET n == N(D, E.id)  t == Tag(n) IN
            /\ E.fields = n
            /\ E.is = [k \in 1..19 |-> IF t = k - 1 THEN 1 ELSE 0]
            /\ E.type = (IF t \in TypeKinds THEN 1 ELSE 0) /\ E.any = 1
            /\ E.named = (IF Name(n) # "" THEN 1 ELSE 0) /\ E.void = 0
            /\ E.types = [typedef |-> If(t = TTypedef, Link(n)), field |-> If(t = TField, Link(n)), array |-> If(t = TArray, Link(n)),
                          pointer |-> If(t = TPointer, Link(n)), constant |-> If(t = TConstant, Link(n)), param |-> If(t = TParam, Link(n))]
            /\ E.count = (IF t = TArray THEN Qty(n) ELSE <<>>)
            /\ E.value = (IF t = TConstant THEN Qty(n) ELSE <<>>)
            /\ E.addr = (IF t = TFunction THEN Qty(n) ELSE <<>>)
         /\ Keep
RootQ == Is("RootQ") /\ E.id = D.root /\ Keep

(* -------- layout -------- *)
TWidth == /\ Is("Width")
          /\ LET t == TagOf(D, E.id) IN
             (InAbi(D, E.id) /\ Fits(Layout(D, E.id)[1])) =>
                LET w == BitsOf(Layout(D, E.id)[1]) IN
                /\ E.type = w
                /\ E.struct = (IF t = TStruct THEN w ELSE <<>>) /\ E.union = (IF t = TUnion THEN w ELSE <<>>)
                /\ E.intrinsic = (IF t = TIntrinsic THEN w ELSE <<>>) /\ E.pointer = (IF t = TPointer THEN w ELSE <<>>)
          /\ Keep
TOffsets == /\ Is("Offsets")
            /\ IF TagOf(D, E.id) # TStruct THEN E.rc # 0
               ELSE /\ E.rc = 0
                    /\ InAbi(D, E.id) /\ Fields(D, E.id) # <<>> /\ Fits(Layout(D, E.id)[1]) =>
                         LET o == Offsets(D, E.id) IN
                         /\ E.count = Len(o)
                         /\ (E.refs => E.list = [i \in 1..Len(Take(o, E.limit)) |-> o[i][1]])
                         /\ (E.offs => E.off = [i \in 1..Len(Take(o, E.limit)) |-> o[i][2]])
            /\ Keep

(* -------- images -------- *)
(* written to memory in exactly the predicted size, read into a fresh database, written again *)
TTransfer == /\ Is("Transfer")
             /\ E.size = Len(E.data) /\ E.wrc = 0 /\ E.rrc = 0 /\ E.again = E.data
             /\ E.shortrc # 0 /\ E.shortsame /\ E.tailsame
             /\ Only(E.d, dbs[E.s])
TWriteFile == /\ Is("WriteFile")
              /\ (E.rc = 0 => E.complete)
              /\ (E.fault = "none" => E.rc = 0)
              /\ Keep
TReadFile == /\ Is("ReadFile")
             /\ IF E.fault = "none" THEN E.rc = 0 /\ Only(E.d, dbs[E.s])
                ELSE E.rc # 0 /\ Keep
TPrefixes == Is("Prefixes") /\ Len(E.rcs) = E.size /\ (\A i \in 1..Len(E.rcs) : E.rcs[i] # 0) /\ Keep
(* any octets offered as an image: refused, or every reference inside the loaded tables *)
TReadImage == /\ Is("ReadImage")
              /\ (~Tables(E.data) => E.rc # 0)
              /\ (E.rc = 0 => /\ (E.root < E.count)
                              /\ \A i \in 1..Len(E.refs) :
                                   LET r == E.refs[i] IN r[1] < E.count /\ r[2] < E.count /\ r[3] < E.count /\ r[4] >= 0)
              /\ Keep

(* -------- hashes -------- *)
(* every reached declaration has a hash; those of declarations that look the same from everywhere are  *)
(* equal exactly when the structures are                                                               *)
TIndex == /\ Is("Index")
          /\ LET r == Reached(D)
                 plain == TLCEval(Plain(D))
                 pairs == {<<Term(D, s, plain[s], FALSE), E.hash[s + 1]>> : s \in DOMAIN plain}
             IN /\ \A s \in r : E.hash[s + 1] # ""
                /\ idx' = idx \cup pairs
          /\ Cardinality({p[1] : p \in idx'}) = Cardinality(idx') /\ Cardinality({p[2] : p \in idx'}) = Cardinality(idx')
          /\ UNCHANGED <<dbs, names, images>>

(* -------- merging -------- *)
Sources(db) == Children(db, db.root)
AliasFree(db) == \A i \in Ids(db) : TagOf(db, i) # TAlias
(* m: an archive of what the slots src hold *)
MergeOf(m, name, src) ==
    LET ch == Sources(m) IN
    /\ Closed(m)
    /\ SubSeq(m.nodes, 1, FirstUser) = DefaultDb.nodes
    /\ TagOf(m, m.root) = TArchive /\ Name(N(m, m.root)) = name
    /\ Len(ch) = Len(src)
    /\ \A i \in 1..Len(src) : Equal(m, ch[i], dbs[src[i]], dbs[src[i]].root)
    (* equal named types and functions are stored once *)
    /\ (\A i \in 1..Len(src) : AliasFree(dbs[src[i]])) =>
          LET R == {s \in PlainSet(m) : TagOf(m, s) \in SharedKinds /\ Name(N(m, s)) # ""} IN
          Cardinality({Term(m, s, {}, TRUE) : s \in R}) = Cardinality(R)
TMerge == /\ Is("Merge") /\ E.rc = 0
          /\ LET m == [nodes |-> E.nodes, root |-> E.root] IN MergeOf(m, E.name, E.srcs) /\ Only(E.d, m)
(* the image of an input or result is the same as when last seen *)
TImage == /\ Is("Image") /\ (images[E.k] # <<>> => E.data = images[E.k])
          /\ images' = [images EXCEPT ![E.k] = E.data] /\ UNCHANGED <<dbs, names, idx>>
(* what comes out of a run depends on what goes in alone *)
TRepeat == /\ Is("Repeat") /\ (\A i \in 1..Len(E.rcs) : E.rcs[i] = 0) /\ (\A i \in 1..Len(E.sums) : E.sums[i] = E.sums[1]) /\ Keep

TNext == TSession \/ TEnd \/ TNew \/ TDefaults \/ TDecl \/ TName \/ TNameText \/ TSetOp \/ TRoot \/ TBuild \/ TBulk \/ TState
         \/ TIntrinsicOp \/ TTagName \/ TQuery \/ TKind \/ RootQ \/ TWidth \/ TOffsets
         \/ TTransfer \/ TWriteFile \/ TReadFile \/ TPrefixes \/ TReadImage \/ TIndex \/ TMerge \/ TImage \/ TRepeat
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===============================================================================
