------------------------------ MODULE ReflectTrace ------------------------------
(* Recorded runs of the plugin, of the library on what it wrote, and of the compiler. *)
EXTENDS DbTrace
LOCAL INSTANCE Reflect
TReflect == /\ Is("Reflect") /\ E.rc = 0 /\ E.rrc = 0
            /\ LET db == [nodes |-> E.nodes, root |-> E.root] IN Mirrors(db, E.file, E.prog) /\ Only(E.d, db)
(* sizes and offsets as the compiler has them: <<path, size, offsets>>; a path leads through member lists *)
RECURSIVE Follow(_, _, _)
Follow(db, id, path) == IF path = <<>> THEN Thru(db, id)
    ELSE LET c == Children(db, Thru(db, id)) IN IF path[1] > Len(c) THEN 0 ELSE Follow(db, c[path[1]], SubSeq(path, 2, Len(path)))
TCompiler == /\ Is("Compiler")
             /\ \A i \in 1..Len(E.types) :
                  LET x == E.types[i]  id == Follow(D, D.root, x[1]) IN
                  /\ id # 0 /\ InAbi(D, id)
                  /\ Layout(D, id)[1] = x[2]
                  /\ (TagOf(D, id) = TStruct /\ x[3] # <<>> =>
                        LET o == Offsets(D, id) IN Len(o) = Len(x[3]) + 1 /\ \A k \in 1..Len(x[3]) : o[k][2] = BitsOf(x[3][k]))
             /\ Keep
TPlugin == /\ Is("Plugin") /\ (E.writable <=> E.rc = 0) /\ (E.rc = 0 => E.complete) /\ Keep
(* sources reflected, merged, emitted as C, compiled into a library and read from there *)
TPipeline == /\ Is("Pipeline") /\ E.rc = 0 /\ E.rrc = 0 /\ E.whole
             /\ LET m == [nodes |-> E.nodes, root |-> E.root] IN MergeOf(m, E.name, E.srcs) /\ Only(E.d, m)
RNext == TNext \/ TReflect \/ TCompiler \/ TPlugin \/ TPipeline
RSpec == TInit /\ [][RNext]_tvars
===============================================================================
